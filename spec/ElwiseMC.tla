------------------------------- MODULE ElwiseMC -----------------------------
(* Every combination of argument types of at most MaxD dimensions (fixed     *)
(* sizes from Sizes0, or var with one of the row patterns).  Checks that the *)
(* recursive definition of DyndElwise agrees with the index-wise meaning of  *)
(* broadcasting and does not depend on the order of the arguments, and       *)
(* prints every case for replay on the library.                              *)
EXTENDS DyndElwise, Json
CONSTANTS MaxD, NArg, Sizes0
VARIABLES Ts, pat
Leaf == [k |-> "leaf", t |-> "int32"]
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN {Leaf}
            ELSE LET S == Types(d - 1) full == {T \in S : Ndim(T) = d - 1} IN
                 S \cup {[k |-> "dim", n |-> n, el |-> T] : n \in Sizes0, T \in full}
                   \cup {[k |-> "var", el |-> T] : T \in full}
HasVar(T) == LET RECURSIVE H(_) H(X) == IsDim(X) /\ (X.k = "var" \/ H(X.el)) IN H(T)
(* size of a var row: pattern p, argument a, row number q *)
Row(p, a, q) == CASE p = 1 -> 2 [] p = 2 -> 1 [] p = 3 -> IF (a + q) % 2 = 0 THEN 2 ELSE 1 [] p = 4 -> (a + q) % 3
RECURSIVE Value(_, _, _, _)
Value(T, p, a, q) ==
  IF ~IsDim(T) THEN (a * 3 + q) % 10
  ELSE [j \in 1..(IF T.k = "dim" THEN T.n ELSE Row(p, a, q)) |-> Value(T.el, p, a, 2 * q + j)]

Init == /\ Ts \in [1..NArg -> Types(MaxD)]
        /\ pat \in (IF \E i \in 1..NArg : HasVar(Ts[i]) THEN 1..4 ELSE {1})
Next == UNCHANGED <<Ts, pat>>

Vs == [i \in 1..NArg |-> Value(Ts[i], pat, i, 1)]
Nd == MaxNdim(Ts, NArg)
F(x) == LET RECURSIVE L(_) L(i) == IF i = 0 THEN 0 ELSE 10 * L(i - 1) + x[i] IN L(NArg)
R == ResType(Ts, Nd, Leaf)
Good == ~IsErr(R) /\ ValOk(R, Ts, Vs, Nd)
V == Val(F, R, Ts, Vs, Nd)

(* the paths of the scalars of a value, and the scalar at the end of a path  *)
RECURSIVE Paths(_, _), AtPath(_, _)
Paths(v, d) == IF d = 0 THEN {<<>>} ELSE UNION {{<<j>> \o p : p \in Paths(v[j], d - 1)} : j \in 1..Len(v)}
AtPath(v, p) == IF p = <<>> THEN v ELSE AtPath(v[IF Len(v) = 1 THEN 1 ELSE p[1]], Tail(p))
Suffix(p, d) == SubSeq(p, Len(p) - d + 1, Len(p))
Pointwise == Good => \A p \in Paths(V, Nd) :
                        AtPath(V, p) = F([i \in 1..NArg |-> AtPath(Vs[i], Suffix(p, Ndim(Ts[i])))])
(* a size other than one of any argument is the size of the result *)
Extent == Good => \A i \in 1..NArg : Ndim(Ts[i]) = Nd /\ Nd > 0 => Len(Vs[i]) \in {1, Len(V)}
Swap(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Symmetric == /\ ResType(Swap(Ts), Nd, Leaf) = R
             /\ ~IsErr(R) => ValOk(R, Swap(Ts), Swap(Vs), Nd) = ValOk(R, Ts, Vs, Nd)
(* storing into a fresh destination of the result type is the plain call *)
Fresh == ~IsErr(R) => /\ DstTypeOk(R, Ts, Nd)
                      /\ DstOk(R, <<>>, FALSE, Ts, Vs, Nd) = ValOk(R, Ts, Vs, Nd)
                      /\ Good => DstVal(F, R, <<>>, FALSE, Ts, Vs, Nd) = V
(* ... and so is storing over an existing value of the right sizes *)
Over == Good => /\ DstOk(R, V, TRUE, Ts, Vs, Nd) /\ DstVal(F, R, V, TRUE, Ts, Vs, Nd) = V
Emit == PrintT("GEN " \o ToJson([ts |-> Ts, vs |-> Vs]))
=============================================================================
