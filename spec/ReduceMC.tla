------------------------------- MODULE ReduceMC -----------------------------
(* Every shape of at most MaxD dimensions with sizes from Sizes0, every set  *)
(* of axes, with and without keepdims.  Checks laws a reduction must satisfy *)
(* and prints every case for replay.                                         *)
EXTENDS DyndReduce, Json
CONSTANTS MaxD, Sizes0
VARIABLES T, axes, keep
Leaf == [k |-> "leaf", t |-> "int32"]
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN {Leaf}
            ELSE Types(d - 1) \cup {[k |-> "dim", n |-> n, el |-> U] : n \in Sizes0, U \in {X \in Types(d - 1) : Ndim(X) = d - 1}}
Init == /\ T \in Types(MaxD) /\ axes \in SUBSET (0..(Ndim(T) - 1)) /\ keep \in BOOLEAN
Next == UNCHANGED <<T, axes, keep>>
RECURSIVE Value(_, _)
Value(U, q) == IF ~IsDim(U) THEN q % 97 ELSE [j \in 1..U.n |-> Value(U.el, 5 * q + j)]
V == Value(T, 1)
RECURSIVE Sum(_), Dig(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dig(s) == IF s = <<>> THEN 1 ELSE (7 * Dig(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]) % 9973
R == RedType(T, 0, axes, keep, Leaf)
RV == Reduce(Sum, T, V, axes, keep)
RECURSIVE HasType(_, _), Total(_, _)
HasType(U, v) == ~IsDim(U) \/ (Len(v) = U.n /\ \A j \in 1..U.n : HasType(U.el, v[j]))
Total(U, v) == IF ~IsDim(U) THEN v ELSE LET RECURSIVE G(_) G(j) == IF j = 0 THEN 0 ELSE G(j - 1) + Total(U.el, v[j]) IN G(U.n)
(* the result has its type; nothing is counted twice or lost *)
Typed == HasType(R, RV)
Conserved == Total(R, RV) = Total(T, V)
(* reducing nothing is the identity on every scalar, keepdims only renames   *)
Nothing == axes = {} => R = T /\ RV = V
(* reducing the outermost axis after all others is reducing all at once *)
KeepT == RedType(T, 0, axes \ {0}, TRUE, Leaf)
TwoSteps == 0 \in axes /\ Ndim(T) > 0 =>
   RV = Reduce(Sum, KeepT, Reduce(Sum, T, V, axes \ {0}, TRUE),
               IF keep THEN {0} ELSE axes, keep)
Emit == PrintT("GEN " \o ToJson([t |-> T, v |-> V, axes |-> axes, keep |-> keep]))
=============================================================================
