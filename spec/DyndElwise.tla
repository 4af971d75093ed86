----------------------------- MODULE DyndElwise -----------------------------
(* Elementwise application of a scalar function: broadcasting of fixed and   *)
(* var dimensions.  Types: DyndLayout's trees plus [k |-> "var", el |-> T],  *)
(* whose size is a property of the value (the length of the sequence).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsDim(T) == T.k \in {"dim", "var"}
RECURSIVE Ndim(_)
Ndim(T) == IF IsDim(T) THEN 1 + Ndim(T.el) ELSE 0
RECURSIVE DT(_)
DT(T) == IF IsDim(T) THEN DT(T.el) ELSE T
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxNdim(_, _)
MaxNdim(Ts, i) == IF i = 0 THEN 0 ELSE Max2(Ndim(Ts[i]), MaxNdim(Ts, i - 1))

(* shape without byte strides *)
RECURSIVE Bare(_)
Bare(T) == CASE T.k = "dim" -> [k |-> "dim", n |-> T.n, el |-> Bare(T.el)]
             [] T.k = "var" -> [k |-> "var", el |-> Bare(T.el)]
             [] T.k = "struct" -> [k |-> "struct", f |-> [i \in 1..Len(T.f) |-> [n |-> T.f[i].n, t |-> Bare(T.f[i].t)]]]
             [] T.k = "tuple" -> [k |-> "tuple", f |-> [i \in 1..Len(T.f) |-> [t |-> Bare(T.f[i].t)]]]
             [] OTHER -> T

(* The arguments that have the outermost dimension of an nd-dimensional call *)
Here(Ts, nd) == {i \in DOMAIN Ts : Ndim(Ts[i]) = nd}
Sub(Ts, nd) == [i \in DOMAIN Ts |-> IF Ndim(Ts[i]) = nd THEN Ts[i].el ELSE Ts[i]]
FixedSizes(Ts, nd) == {Ts[i].n : i \in {j \in Here(Ts, nd) : Ts[j].k = "dim"}}
Err == [k |-> "error"]
IsErr(T) == T.k = "error"

(* Type of the result, from the types alone: "error" if fixed sizes clash.   *)
(* One dimension per level: the size every fixed size other than one agrees  *)
(* on; a var dimension if only var dimensions and sizes of one meet.         *)
RECURSIVE ResType(_, _, _)
ResType(Ts, nd, ret) ==
  IF nd = 0 THEN ret
  ELSE LET big == FixedSizes(Ts, nd) \ {1}
           anyvar == \E i \in Here(Ts, nd) : Ts[i].k = "var"
           el == ResType(Sub(Ts, nd), nd - 1, ret)
       IN IF Cardinality(big) > 1 \/ IsErr(el) THEN Err
          ELSE IF big # {} THEN [k |-> "dim", n |-> CHOOSE x \in big : TRUE, el |-> el]
          ELSE IF anyvar THEN [k |-> "var", el |-> el]
          ELSE [k |-> "dim", n |-> 1, el |-> el]

(* Value of the result of type R; a row of a var dimension in R takes the    *)
(* size its operands agree on.  Ok tells whether all of them do.             *)
Sizes(Ts, vs, nd) == {Len(vs[i]) : i \in Here(Ts, nd)}
RowSize(R, Ts, vs, nd) ==
  IF R.k = "dim" THEN R.n
  ELSE LET big == Sizes(Ts, vs, nd) \ {1} IN IF big = {} THEN 1 ELSE CHOOSE x \in big : TRUE
Elem(Ts, vs, nd, j) == [i \in DOMAIN Ts |-> IF Ndim(Ts[i]) # nd THEN vs[i]
                                            ELSE IF Len(vs[i]) = 1 THEN vs[i][1] ELSE vs[i][j]]
RECURSIVE ValOk(_, _, _, _), Val(_, _, _, _, _)
ValOk(R, Ts, vs, nd) ==
  nd = 0 \/ (/\ \A s \in Sizes(Ts, vs, nd) : s = 1 \/ s = RowSize(R, Ts, vs, nd)
             /\ \A j \in 1..RowSize(R, Ts, vs, nd) : ValOk(R.el, Sub(Ts, nd), Elem(Ts, vs, nd, j), nd - 1))
Val(F(_), R, Ts, vs, nd) ==
  IF nd = 0 THEN F(vs)
  ELSE [j \in 1..RowSize(R, Ts, vs, nd) |-> Val(F, R.el, Sub(Ts, nd), Elem(Ts, vs, nd, j), nd - 1)]

(* With a destination of type D and present value d.  Var rows of a          *)
(* destination without storage (~init) take the size the operands agree on.  *)
HasRoom(D, init) == D.k = "dim" \/ init
DstSize(D, d, init, Ts, vs, nd) ==
  IF D.k = "dim" THEN D.n ELSE IF init THEN Len(d) ELSE RowSize(D, Ts, vs, nd)
DstElem(d, init, j) == IF init THEN d[j] ELSE d
RECURSIVE DstTypeOk(_, _, _), DstOk(_, _, _, _, _, _), DstVal(_, _, _, _, _, _, _)
DstTypeOk(D, Ts, nd) ==
  nd = 0 \/ (/\ D.k = "dim" => \A s \in FixedSizes(Ts, nd) : s = 1 \/ s = D.n
             /\ DstTypeOk(D.el, Sub(Ts, nd), nd - 1))
DstOk(D, d, init, Ts, vs, nd) ==
  nd = 0 \/ (/\ \A s \in Sizes(Ts, vs, nd) : s = 1 \/ s = DstSize(D, d, init, Ts, vs, nd)
             /\ \A j \in 1..DstSize(D, d, init, Ts, vs, nd) :
                  DstOk(D.el, DstElem(d, init, j), init, Sub(Ts, nd), Elem(Ts, vs, nd, j), nd - 1))
DstVal(F(_), D, d, init, Ts, vs, nd) ==
  IF nd = 0 THEN F(vs)
  ELSE [j \in 1..DstSize(D, d, init, Ts, vs, nd) |->
         DstVal(F, D.el, DstElem(d, init, j), init, Sub(Ts, nd), Elem(Ts, vs, nd, j), nd - 1)]
=============================================================================
