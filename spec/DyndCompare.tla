---------------------------- MODULE DyndCompare ----------------------------
(* Comparison of values, arrays of them, sorting and searching.              *)
(* A value is the list of bytes of a number, text or byte string, or the     *)
(* list of the field values of a record.  A type is a tree:                  *)
(* [k |-> "num", n |-> name], "opt" (of a num), "str", "bytes", "type",      *)
(* "tup" with fs, "rec" with fs and names.                                   *)
EXTENDS DyndOption

(* ---- numbers *)
Bit(x, i) == IF i > Len(x.m) THEN 0 ELSE x.m[i]
RECURSIVE BitsLess(_, _, _, _)
BitsLess(x, y, i, n) == IF i > n THEN FALSE
                        ELSE IF Bit(x, i) # Bit(y, i) THEN Bit(x, i) < Bit(y, i) ELSE BitsLess(x, y, i + 1, n)
MagLess(x, y) ==     \* |x| < |y|, neither a NaN
  IF x.k = "inf" THEN FALSE
  ELSE IF y.k = "inf" THEN TRUE
  ELSE IF y.m = <<>> THEN FALSE
  ELSE IF x.m = <<>> THEN TRUE
  ELSE IF Top(x) # Top(y) THEN Top(x) < Top(y)
  ELSE BitsLess(x, y, 1, IF Len(x.m) > Len(y.m) THEN Len(x.m) ELSE Len(y.m))
NumLess(x, y) ==
  /\ x.k # "nan" /\ y.k # "nan" /\ ~(IsZero(x) /\ IsZero(y))
  /\ IF x.s # y.s THEN x.s = 1
     ELSE IF x.s = 1 THEN MagLess(y, x) ELSE MagLess(x, y)
(* how two numbers relate: one of "lt", "eq", "gt", "un" *)
Rel(x, y) == IF x.k = "nan" \/ y.k = "nan" THEN "un" ELSE IF NumLess(x, y) THEN "lt" ELSE IF NumLess(y, x) THEN "gt" ELSE "eq"

(* the type C++ brings two numbers to *)
Promoted(T) == IF T.k = "bool" \/ (T.k = "int" /\ T.w < 32) THEN IntT(32, 1) ELSE T
Common(S, T) ==
  LET A == Promoted(S)
      B == Promoted(T)
  IN IF S = T THEN S
     ELSE IF A.k = "flt" \/ B.k = "flt" THEN IF B.k # "flt" \/ (A.k = "flt" /\ A.p >= B.p) THEN A ELSE B
     ELSE IF A.w # B.w THEN (IF A.w > B.w THEN A ELSE B) ELSE (IF A.sg = 0 THEN A ELSE B)
Holds(T, x) == IF T.k = "flt" THEN x.k # "fin" \/ SameValue(Round(T, x), x)
               ELSE IF T.k = "int" THEN IsInt(x) /\ InRange(T, x) ELSE TRUE
(* "free": the conversion changes a value, and what is then found is not promised *)
NumRel(S, a, T, b) ==
  LET x == Decode(S, a)
      y == Decode(T, b)
      C == Common(S, T)
  IN IF Holds(C, x) /\ Holds(C, y) THEN Rel(x, y) ELSE "free"

(* ---- texts and byte strings: by unsigned bytes *)
RECURSIVE SeqRel(_, _, _)
SeqRel(a, b, i) ==
  IF i > Len(a) THEN IF i > Len(b) THEN "eq" ELSE "lt"
  ELSE IF i > Len(b) THEN "gt"
  ELSE IF a[i] = b[i] THEN SeqRel(a, b, i + 1)
  ELSE IF a[i] < b[i] THEN "lt" ELSE "gt"

(* ---- the six comparisons: TRUE, FALSE as "t", "f", or "free" *)
Verdict(op, rel) ==
  IF rel = "free" THEN "free"
  ELSE LET yes == CASE op = "less" -> rel = "lt" [] op = "less_equal" -> rel \in {"lt", "eq"}
                    [] op = "greater" -> rel = "gt" [] op = "greater_equal" -> rel \in {"gt", "eq"}
                    [] op = "equal" -> rel = "eq" [] op = "not_equal" -> rel # "eq"
       IN IF yes THEN "t" ELSE "f"
Half(x, i) == SubSeq(x, 1 + i * (Len(x) \div 2), (1 + i) * (Len(x) \div 2))
RECURSIVE Eq(_, _, _, _)
(* are two values equal?  "t", "f", "free" *)
Eq(S, a, T, b) ==
  CASE S.k = "num" /\ Types[S.n].k = "cpx" ->
         LET E == Types[S.n].el
             p == {Rel(Decode(E, Half(a, i)), Decode(E, Half(b, i))) : i \in {0, 1}}
         IN IF p = {"eq"} THEN "t" ELSE "f"
    [] S.k = "num" -> Verdict("equal", NumRel(Types[S.n], a, Types[T.n], b))
    [] S.k \in {"str", "bytes", "type"} -> IF a = b THEN "t" ELSE "f"
    [] S.k \in {"tup", "rec"} ->
         IF Len(S.fs) # Len(T.fs) THEN "f"
         ELSE LET p == {Eq(S.fs[i], a[i], T.fs[i], b[i]) : i \in DOMAIN S.fs}
              IN IF "f" \in p THEN "f" ELSE IF "free" \in p THEN "free" ELSE "t"
Compare(op, S, a, T, b) ==
  CASE op = "equal" -> Eq(S, a, T, b)
    [] op = "not_equal" -> (CASE Eq(S, a, T, b) = "t" -> "f" [] Eq(S, a, T, b) = "f" -> "t" [] OTHER -> "free")
    [] S.k = "num" -> Verdict(op, NumRel(Types[S.n], a, Types[T.n], b))
    [] S.k = "str" -> Verdict(op, SeqRel(a, b, 1))
(* types that have a comparison.  "may": it depends, no promise *)
IsCpx(T) == T.k = "num" /\ Types[T.n].k = "cpx"
RealNames == {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
RECURSIVE Offered(_, _, _)
Offered(op, S, T) ==
  IF S.k = "num" /\ T.k = "num" THEN IF S.n \in RealNames /\ T.n \in RealNames THEN "yes"
                                     ELSE IF IsCpx(S) /\ S = T /\ op \in {"equal", "not_equal"} THEN "yes" ELSE "may"
  ELSE IF S.k = "str" /\ T.k = "str" THEN "yes"
  ELSE IF S.k = T.k /\ S.k \in {"bytes", "type"} /\ op \in {"equal", "not_equal"} THEN "yes"
  ELSE IF S.k = T.k /\ S.k \in {"tup", "rec"} /\ op \in {"equal", "not_equal"}
  THEN IF Len(S.fs) # Len(T.fs) THEN "no"
       ELSE IF (\A i \in DOMAIN S.fs : Offered(op, S.fs[i], T.fs[i]) = "yes") /\ (S.k = "rec" => S.names = T.names) THEN "yes" ELSE "may"
  ELSE "may"

(* ---- sorted: every value by the order of its type, NaN aside *)
Before(T, a, b) == IF T.k = "num" THEN Rel(Decode(Types[T.n], a), Decode(Types[T.n], b)) = "lt" ELSE SeqRel(a, b, 1) = "lt"
Ordered(T, v) == \A i \in 1..(Len(v) - 1) : ~Before(T, v[i + 1], v[i])
HasNaN(T, v) == T.k = "num" /\ \E i \in DOMAIN v : Decode(Types[T.n], v[i]).k = "nan"
Count(v, x) == Cardinality({i \in DOMAIN v : v[i] = x})
Permutation(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Count(v, v[i]) = Count(w, v[i])
(* ---- what a search may answer in an ordered list: an index of the value from 0, or -1 *)
Found(v, x, i) == IF i = -1 THEN \A j \in DOMAIN v : v[j] # x ELSE i \in 0..(Len(v) - 1) /\ v[i + 1] = x
=============================================================================
