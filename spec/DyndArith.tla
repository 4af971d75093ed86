----------------------------- MODULE DyndArith -----------------------------
(* Arithmetic, bitwise, shift and logical operations on numbers of machine   *)
(* types: the exact result where the type holds it, the nearest for floating *)
(* point numbers, and what happens where there is none.                      *)
EXTENDS DyndCompare

(* ---- magnitudes: sequences of bits, most significant first *)
At0(b, i) == IF i < 1 THEN 0 ELSE b[i]
RECURSIVE AddFrom(_, _, _, _, _)
(* a + b, both of n bits; the sum of n + 1 bits *)
AddFrom(a, b, i, c, acc) ==
  IF i = 0 THEN <<c>> \o acc
  ELSE LET t == a[i] + b[i] + c IN AddFrom(a, b, i - 1, t \div 2, <<t % 2>> \o acc)
Wide2(a, n) == Zeros(n - Len(a)) \o a
BAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN StripL(AddFrom(Wide2(a, n), Wide2(b, n), n, 0, <<>>))
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) ==
  IF i = 0 THEN acc
  ELSE LET t == a[i] - b[i] - c IN SubFrom(a, b, i - 1, IF t < 0 THEN 1 ELSE 0, <<t % 2>> \o acc)
BSub(a, b) == StripL(SubFrom(a, Wide2(b, Len(a)), Len(a), 0, <<>>))     \* a >= b, no leading zeros
RECURSIVE BLessFrom(_, _, _)
BLessFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessFrom(a, b, i + 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessFrom(a, b, 1)
RECURSIVE BMulFrom(_, _, _, _)
BMulFrom(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET t == IF acc = <<>> THEN acc ELSE Append(acc, 0) IN BMulFrom(a, b, i + 1, IF b[i] = 1 THEN BAdd(t, a) ELSE t)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMulFrom(a, b, 1, <<>>)
RECURSIVE DivFrom(_, _, _, _, _)
(* quotient and remainder of the whole number a by b *)
DivFrom(a, b, i, q, rem) ==
  IF i > Len(a) THEN <<StripL(q), rem>>
  ELSE LET t == StripL(Append(rem, a[i])) IN
       IF BLess(t, b) THEN DivFrom(a, b, i + 1, Append(q, 0), t) ELSE DivFrom(a, b, i + 1, Append(q, 1), BSub(t, b))
BDivMod(a, b) == DivFrom(StripL(a), b, 1, <<>>, <<>>)
RECURSIVE RootFrom(_, _, _, _)
(* whole square root of a, which has an even number of bits, and what remains *)
RootFrom(a, i, q, rem) ==
  IF i > Len(a) THEN <<q, rem>>
  ELSE LET t == StripL(rem \o <<a[i], a[i + 1]>>)
           u == StripL(q \o <<0, 1>>)
       IN IF BLess(t, u) THEN RootFrom(a, i + 2, Append(q, 0), t) ELSE RootFrom(a, i + 2, Append(q, 1), BSub(t, u))
BRoot(a) == LET p == RootFrom(IF Len(a) % 2 = 1 THEN <<0>> \o a ELSE a, 1, <<>>, <<>>) IN <<StripL(p[1]), p[2]>>

(* ---- exact numbers *)
Neg1(x) == IF x.k = "nan" THEN x ELSE [x EXCEPT !.s = 1 - x.s]
Whole(x) == x.m \o Zeros(x.e)                 \* an integer's magnitude
Scale(x, e) == x.m \o Zeros(x.e - e)          \* the magnitude in units of 2^e
ExAdd(x, y) ==      \* finite; a zero result is +0 unless both are -0
  IF x.m = <<>> THEN (IF y.m = <<>> THEN Zero(IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0) ELSE y)
  ELSE IF y.m = <<>> THEN x
  ELSE LET e == IF x.e < y.e THEN x.e ELSE y.e
           a == Scale(x, e)
           b == Scale(y, e)
       IN IF x.s = y.s THEN Fin(x.s, BAdd(a, b), e)
          ELSE IF a = b THEN Zero(0)
          ELSE IF BLess(a, b) THEN Fin(y.s, BSub(b, a), e) ELSE Fin(x.s, BSub(a, b), e)
Sgn(x, y) == (x.s + y.s) % 2
ExMul(x, y) == Fin(Sgn(x, y), BMul(x.m, y.m), x.e + y.e)
(* whole division towards zero, and the remainder, which has the sign of x *)
ExDiv(x, y) == Fin(Sgn(x, y), BDivMod(Whole(x), Whole(y))[1], 0)
ExMod(x, y) == Fin(x.s, BDivMod(Whole(x), Whole(y))[2], 0)

(* ---- floating point *)
FltAdd(T, x, y) ==
  IF x.k = "nan" \/ y.k = "nan" THEN Nan
  ELSE IF x.k = "inf" THEN (IF y.k = "inf" /\ x.s # y.s THEN Nan ELSE x)
  ELSE IF y.k = "inf" THEN y
  ELSE Round(T, ExAdd(x, y))
FltMul(T, x, y) ==
  IF x.k = "nan" \/ y.k = "nan" THEN Nan
  ELSE IF x.k = "inf" \/ y.k = "inf" THEN (IF IsZero(x) \/ IsZero(y) THEN Nan ELSE Inf(Sgn(x, y)))
  ELSE Round(T, ExMul(x, y))
(* a value strictly between two candidates: a bit more than what was found *)
Sticky(bits, exact, e, s) == IF exact THEN Fin(s, bits, e) ELSE Fin(s, Append(bits, 1), e - 1)
FltDiv(T, x, y) ==
  IF x.k = "nan" \/ y.k = "nan" THEN Nan
  ELSE IF x.k = "inf" THEN (IF y.k = "inf" THEN Nan ELSE Inf(Sgn(x, y)))
  ELSE IF y.k = "inf" THEN Zero(Sgn(x, y))
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN Nan ELSE Inf(Sgn(x, y)))
  ELSE IF IsZero(x) THEN Zero(Sgn(x, y))
  ELSE LET n == T.p + 2 + (IF Len(y.m) > Len(x.m) THEN Len(y.m) - Len(x.m) ELSE 0)
           d == BDivMod(x.m \o Zeros(n), y.m)
       IN Round(T, Sticky(d[1], d[2] = <<>>, x.e - y.e - n, Sgn(x, y)))
FltSqrt(T, x) ==
  IF x.k = "nan" \/ IsZero(x) THEN x
  ELSE IF x.s = 1 THEN Nan
  ELSE IF x.k = "inf" THEN x
  ELSE LET n == 2 * T.p + 4 + ((x.e + 2 * T.p + 4) % 2)
           d == BRoot(x.m \o Zeros(n))
       IN Round(T, Sticky(d[1], d[2] = <<>>, (x.e - n) \div 2, 0))

(* ---- integers: modulo 2^w if unsigned; beyond the range of a signed type nothing is promised *)
Fit(T, v) == IF T.sg = 0 THEN Out(DecodeInt(T, EncodeInt(T, v))) ELSE IF InRange(T, v) THEN Out(v) ELSE Free
BitOp(op, p, q) == CASE op = "bitwise_and" -> (IF p + q = 2 THEN 1 ELSE 0)
                     [] op = "bitwise_or" -> (IF p + q > 0 THEN 1 ELSE 0)
                     [] op = "bitwise_xor" -> (p + q) % 2
IntBin(op, T, x, y) ==
  CASE op = "add" -> Fit(T, ExAdd(x, y))
    [] op = "subtract" -> Fit(T, ExAdd(x, Neg1(y)))
    [] op = "multiply" -> Fit(T, ExMul(x, y))
    [] op = "divide" -> IF IsZero(y) THEN Fail ELSE Fit(T, ExDiv(x, y))
    [] op = "mod" -> IF IsZero(y) THEN Fail ELSE Out(ExMod(x, y))
    [] op \in {"bitwise_and", "bitwise_or", "bitwise_xor"} ->
         LET a == EncodeInt(T, x)
             b == EncodeInt(T, y)
         IN Out(DecodeInt(T, [i \in 1..T.w |-> BitOp(op, a[i], b[i])]))
FltBin(op, T, x, y) ==
  CASE op = "add" -> Out(FltAdd(T, x, y))
    [] op = "subtract" -> Out(FltAdd(T, x, Neg1(y)))
    [] op = "multiply" -> Out(FltMul(T, x, y))
    [] op = "divide" -> Out(FltDiv(T, x, y))
(* a number brought to the common type *)
Bring(C, x) == IF C.k = "flt" THEN Round(C, x) ELSE DecodeInt(C, EncodeInt(C, x))
(* the number of places to shift by, 1000 for too many *)
Places(y) == IF y.s = 1 /\ y.m # <<>> THEN -1 ELSE IF Top(y) > 9 THEN 1000 ELSE BitsVal(Whole(y))
Shift(op, T, x, y) ==
  LET n == Places(y) IN
  IF n < 0 \/ n >= T.w THEN Free
  ELSE IF op = "left_shift" THEN (IF x.s = 1 THEN Free ELSE Fit(T, [x EXCEPT !.e = IF x.m = <<>> THEN 0 ELSE x.e + n]))
  ELSE LET b == EncodeInt(T, x) IN      \* copies of the sign come in
       Out(DecodeInt(T, [i \in 1..n |-> IF T.sg = 1 THEN b[1] ELSE 0] \o SubSeq(b, 1, T.w - n)))
Truth(x) == ~IsZero(x)
Bool(b) == Out(IF b THEN One ELSE Zero(0))
Logical == {"logical_and", "logical_or", "logical_xor"}
Shifts == {"left_shift", "right_shift"}
Arith == {"add", "subtract", "multiply", "divide"}
OnlyInt == {"mod", "bitwise_and", "bitwise_or", "bitwise_xor"} \cup Shifts
Unary == {"plus", "minus", "bitwise_not", "logical_not", "sqrt"}
CommonA(S, T) == Common(Promoted(S), Promoted(T))
(* the type of a op b for real S and T *)
ResultT(op, S, T) ==
  IF op \in {"logical_and", "logical_or", "logical_not"} THEN [k |-> "bool"]
  ELSE IF op = "logical_xor" THEN IntT(32, 1)
  ELSE IF op \in Shifts \cup {"plus", "minus", "bitwise_not", "sqrt"} THEN Promoted(S)
  ELSE CommonA(S, T)
Bin(op, S, x, T, y) ==
  LET R == ResultT(op, S, T) IN
  CASE op = "logical_and" -> Bool(Truth(x) /\ Truth(y))
    [] op = "logical_or" -> Bool(Truth(x) \/ Truth(y))
    [] op = "logical_xor" -> Bool(Truth(x) # Truth(y))
    [] op \in Shifts -> Shift(op, R, x, y)
    [] OTHER -> IF R.k = "flt" THEN FltBin(op, R, Bring(R, x), Bring(R, y)) ELSE IntBin(op, R, Bring(R, x), Bring(R, y))
(* a number of type R stored in type D, as C++ converts it *)
Store(D, R, v) ==
  CASE D.k = "flt" -> Out(Round(D, v))
    [] R.k = "flt" -> IF v.k = "fin" /\ InRange(D, Trunc(v)) THEN Out(Trunc(v)) ELSE Free
    [] OTHER -> Out(DecodeInt(D, EncodeInt(D, v)))
(* x op= y *)
InPlace(op, D, x, T, y) ==
  LET w == Bin(op, D, x, T, y) IN IF w.err # "no" THEN w ELSE Store(D, ResultT(op, D, T), w.v)
Un(op, S, x) ==
  LET R == ResultT(op, S, S) IN
  CASE op = "logical_not" -> Bool(~Truth(x))
    [] op = "plus" -> Out(x)
    [] op = "minus" -> IF R.k = "flt" THEN Out(Neg1(x)) ELSE Fit(R, IF IsZero(x) THEN x ELSE Neg1(x))
    [] op = "bitwise_not" -> Out(DecodeInt(R, Flip(EncodeInt(R, x))))
    [] op = "sqrt" -> Out(FltSqrt(S, x))

(* ---- complex numbers <<re, im>> of floating point type T: where every step is exact *)
Exact(T, v) == v.k = "fin" /\ SameValue(Round(T, v), v)
AllFin(v) == \A i \in DOMAIN v : v[i].k = "fin"
CpxBin(op, T, x, y) ==
  IF op \in {"add", "subtract"}
  THEN Out([i \in {1, 2} |-> FltAdd(T, x[i], IF op = "add" THEN y[i] ELSE Neg1(y[i]))])
  ELSE IF ~AllFin(x \o y) THEN Free
  ELSE LET yy == IF op = "multiply" THEN y ELSE <<y[1], Neg1(y[2])>>
           ps == <<ExMul(x[1], yy[1]), Neg1(ExMul(x[2], yy[2])), ExMul(x[1], yy[2]), ExMul(x[2], yy[1])>>
           re == ExAdd(ps[1], ps[2])
           im == ExAdd(ps[3], ps[4])
           sq == <<ExMul(y[1], y[1]), ExMul(y[2], y[2])>>
           n == ExAdd(sq[1], sq[2])
       IN IF \E v \in {ps[1], ps[2], ps[3], ps[4], re, im, sq[1], sq[2], n} : ~Exact(T, v) THEN Free
          ELSE IF op = "multiply" THEN Out(<<re, im>>)
          ELSE IF Len(n.m) # 1 THEN Free     \* dividing by a power of two
          ELSE LET q == [i \in {1, 2} |-> IF IsZero(<<re, im>>[i]) THEN Zero(0) ELSE [<<re, im>>[i] EXCEPT !.e = @ - n.e]] IN
               IF \E i \in {1, 2} : ~Exact(T, q[i]) THEN Free ELSE Out(q)

(* ---- which operand types have the operation: "yes", "no", "may" *)
Reals == RealNames
IntNames == RealNames \ {"float32", "float64"}
Cpx == {"complex64", "complex128"}
Has(op, s, t) ==
  IF op \in OnlyInt THEN IF s \in IntNames /\ t \in IntNames THEN "yes"
                         ELSE IF s \in Reals \cup Cpx /\ t \in Reals \cup Cpx THEN "no" ELSE "may"
  ELSE IF op \in Logical THEN IF s \in Reals /\ t \in Reals THEN "yes" ELSE "may"
  ELSE IF s \in Reals /\ t \in Reals THEN "yes"
  ELSE IF s \in Cpx /\ t \in Cpx THEN "yes" ELSE "may"
Has1(op, s) ==
  CASE op \in {"plus", "minus", "logical_not"} -> IF s \in Reals THEN "yes" ELSE "may"
    [] op = "bitwise_not" -> IF s \in IntNames \ {"bool"} THEN "yes" ELSE IF s \in {"float32", "float64"} \cup Cpx THEN "no" ELSE "may"
    [] op = "sqrt" -> IF s \in {"float32", "float64"} THEN "yes" ELSE "may"

(* ---- the type two types promote to.  A type: [o |-> optional?, n |-> a name *)
(* of a number type, "string" or "void"]                                     *)
RealName(T) == CHOOSE n \in RealNames : Types[n] = T
PartOf(n) == IF n \in Cpx THEN Types[n].el ELSE Types[n]
PromoteName(s, t) ==
  IF s = "void" \/ t = "void" THEN (IF s = "void" THEN t ELSE s)
  ELSE IF s = "string" \/ t = "string" THEN (IF s = t THEN s ELSE "error")
  ELSE IF s \in Cpx \/ t \in Cpx
  THEN IF \E n \in {s, t} : PartOf(n) = Types.float64 THEN "complex128" ELSE "complex64"
  ELSE RealName(CommonA(Types[s], Types[t]))
Promote(a, b) == LET n == PromoteName(a.n, b.n) IN [o |-> IF a.o = 1 \/ b.o = 1 THEN 1 ELSE 0, n |-> n]
=============================================================================
