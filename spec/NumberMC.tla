------------------------------ MODULE NumberMC ------------------------------
(* Laws of rounding and conversion on every number of small machine types,   *)
(* and the boundary numbers of the real types as cases for replay.           *)
EXTENDS DyndNumber, Json
CONSTANTS Names, Ks
VARIABLES mode, src, dst, b

(* -- small types: every bit pattern *)
Mini == <<IntT(4, 1), IntT(4, 0), FltT(3, 3), FltT(2, 3), FltT(4, 4), IntT(6, 1), IntT(3, 0)>>
W(T) == IF T.k = "int" THEN T.w ELSE T.p + T.eb
All(T) == [1..W(T) -> {0, 1}]
Modes == {"nocheck", "overflow", "fractional", "inexact"}
Init == /\ src \in 1..Len(Mini) /\ dst \in 1..Len(Mini) /\ mode \in Modes /\ b = <<>>
Next == b = <<>> /\ b' \in All(Mini[src]) /\ UNCHANGED <<mode, src, dst>>
S == Mini[src]
T == Mini[dst]
x == DecodeBits(S, b)
r == Conv(T, S, x, mode)

(* exact comparison through a common scale, for small numbers only *)
Scaled(y) == LET v == BitsVal(y.m) * Pow(y.e + 14) IN IF y.s = 1 THEN -v ELSE v
Fins(U) == {y \in {DecodeBits(U, c) : c \in All(U)} : y.k = "fin"}
Abs(n) == IF n < 0 THEN -n ELSE n
RoundTrip == b # <<>> /\ x.k # "nan" => EncodeBits(S, x) = b
Holds(U, y) == \E z \in Fins(U) : SameValue(z, y)
(* never a wrong number: the result is the source, truncated or rounded *)
InexactExact == b # <<>> /\ mode = "inexact" /\ r.err = "no" => SameValue(r.v, x) /\ (x.k = "fin" => Holds(T, x))
InexactComplete == b # <<>> /\ mode = "inexact" /\ x.k = "fin" /\ Holds(T, x) => r.err = "no"
RangeOk == b # <<>> /\ r.err = "no" /\ x.k = "fin" /\ r.v.k = "fin" => Holds(T, r.v)
Nearest == b # <<>> /\ T.k = "flt" /\ x.k = "fin" /\ r.err = "no" /\ r.v.k = "fin" =>
             \A z \in Fins(T) : Abs(Scaled(z) - Scaled(x)) >= Abs(Scaled(r.v) - Scaled(x))
OverflowOk == b # <<>> /\ T.k = "int" /\ mode # "nocheck" /\ x.k = "fin" =>
   LET lo == IF T.sg = 1 THEN -Pow(T.w - 1) ELSE 0
       hi == IF T.sg = 1 THEN Pow(T.w - 1) - 1 ELSE Pow(T.w) - 1
       inr == lo * Pow(14) <= Scaled(x) /\ Scaled(x) <= hi * Pow(14)
   IN /\ ~inr => r.err = "yes"
      /\ inr /\ mode = "overflow" => r.err = "no" /\ Abs(Scaled(r.v)) <= Abs(Scaled(x)) /\ Abs(Scaled(r.v) - Scaled(x)) < Pow(14)
      /\ r.err = "yes" => (~inr \/ Scaled(x) % Pow(14) # 0)
Stricter == b # <<>> =>
            /\ mode = "overflow" /\ r.err = "yes" => Conv(T, S, x, "fractional").err = "yes"
            /\ mode = "fractional" /\ r.err = "yes" => Conv(T, S, x, "inexact").err = "yes"

(* -- boundary numbers: (2^k + d) * 2^j *)
Near == {Fin(sg, UBits(0, 1) \o (IF d >= 0 THEN (IF k = 0 THEN UBits(1 + d, 2) ELSE <<1>> \o Zeros(k - 1) \o <<d>>)
                                 ELSE (IF k = 0 THEN <<0>> ELSE Ones(k))), j) :
            sg \in {0, 1}, k \in Ks, d \in {-1, 0, 1}, j \in {-1, 0, 1}}
Big(U) == IF U.k # "flt" THEN {} ELSE
          {Fin(sg, Ones(p), q) : sg \in {0, 1}, p \in {U.p, U.p - 1}, q \in {Emax(U) - U.p + 1, Emax(U) - U.p, Qmin(U), Qmin(U) + 1}}
            \cup {Fin(sg, <<1>>, Qmin(U)) : sg \in {0, 1}} \cup {Inf(0), Inf(1), Nan, Zero(1)}
            \cup {Fin(0, Ones(24), 104), Fin(1, Ones(25), 103), Fin(0, Ones(24) \o <<0, 1>>, 102), Fin(0, <<1>>, -149), Fin(0, <<1, 1>>, -150), Fin(0, <<1>>, -150)}
Can(U, y) == CASE U.k = "int" -> IsInt(y) /\ InRange(U, y) [] U.k = "bool" -> IsZero(y) \/ Same(y, One)
               [] U.k = "flt" -> Same(Round(U, y), y)
Numbers(U) == {y \in Near \cup Big(U) : Can(U, y)}
Reals(U) == IF U.k = "cpx" THEN U.el ELSE U
Cases == [n \in Names |-> LET U == Reals(Types[n]) IN {Bytes(EncodeBits(U, y)) : y \in Numbers(U)}]
ASSUME PrintT("GEN " \o ToJson(Cases))
=============================================================================
