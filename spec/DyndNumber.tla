----------------------------- MODULE DyndNumber -----------------------------
(* Exact numbers, the machine types they live in, and conversion between     *)
(* machine types under the library's error modes.                            *)
(* A finite number is (-1)^s * m * 2^e with m a sequence of bits, most       *)
(* significant first, without leading or trailing zeros (<<>> is zero).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nan == [k |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
Inf(s) == [k |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
Zero(s) == [k |-> "fin", s |-> s, m |-> <<>>, e |-> 0]
RECURSIVE StripL(_), Strip(_, _)
StripL(b) == IF b # <<>> /\ b[1] = 0 THEN StripL(Tail(b)) ELSE b
Strip(b, e) == IF b = <<>> THEN <<b, e>>
               ELSE IF b[Len(b)] = 0 THEN Strip(SubSeq(b, 1, Len(b) - 1), e + 1) ELSE <<b, e>>
Fin(s, bits, e) == LET p == Strip(StripL(bits), e) IN
                   IF p[1] = <<>> THEN Zero(s) ELSE [k |-> "fin", s |-> s, m |-> p[1], e |-> p[2]]
IsZero(x) == x.k = "fin" /\ x.m = <<>>
(* 2^(Top - 1) <= |x| < 2^Top *)
Top(x) == Len(x.m) + x.e
IsInt(x) == x.k = "fin" /\ (x.m = <<>> \/ x.e >= 0)
One == [k |-> "fin", s |-> 0, m |-> <<1>>, e |-> 0]
Same(x, y) == x.k = y.k /\ (x.k = "nan" \/ (x.s = y.s /\ x.m = y.m /\ x.e = y.e))
SameValue(x, y) == Same(x, y) \/ (IsZero(x) /\ IsZero(y))
Trunc(x) == IF IsInt(x) THEN x
            ELSE IF Top(x) <= 0 THEN Zero(0)
            ELSE Fin(x.s, SubSeq(x.m, 1, Top(x)), 0)

(* ---- machine types *)
IntT(w, sg) == [k |-> "int", w |-> w, sg |-> sg]
FltT(p, eb) == [k |-> "flt", p |-> p, eb |-> eb]     \* precision, exponent bits
Types == [int8 |-> IntT(8, 1), int16 |-> IntT(16, 1), int32 |-> IntT(32, 1), int64 |-> IntT(64, 1), int128 |-> IntT(128, 1),
          uint8 |-> IntT(8, 0), uint16 |-> IntT(16, 0), uint32 |-> IntT(32, 0), uint64 |-> IntT(64, 0), uint128 |-> IntT(128, 0),
          bool |-> [k |-> "bool"],
          float32 |-> FltT(24, 8), float64 |-> FltT(53, 11),
          complex64 |-> [k |-> "cpx", el |-> FltT(24, 8)], complex128 |-> [k |-> "cpx", el |-> FltT(53, 11)]]
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Emax(T) == Pow(T.eb - 1) - 1
Qmin(T) == 2 - Emax(T) - T.p            \* exponent of the smallest subnormal
Size(T) == CASE T.k = "int" -> T.w \div 8 [] T.k = "bool" -> 1 [] T.k = "flt" -> (T.p + T.eb) \div 8

(* ---- bits: sequences, most significant first *)
ByteBits(b) == [i \in 1..8 |-> (b \div Pow(8 - i)) % 2]
RECURSIVE Bits(_)
Bits(bytes) == IF bytes = <<>> THEN <<>> ELSE Bits(Tail(bytes)) \o ByteBits(Head(bytes))  \* bytes: little endian
RECURSIVE BitsVal(_), Bytes(_)
BitsVal(b) == IF b = <<>> THEN 0 ELSE 2 * BitsVal(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Bytes(b) == IF b = <<>> THEN <<>> ELSE <<BitsVal(SubSeq(b, Len(b) - 7, Len(b)))>> \o Bytes(SubSeq(b, 1, Len(b) - 8))
Flip(b) == [i \in DOMAIN b |-> 1 - b[i]]
RECURSIVE Inc(_)
(* b + 1 modulo 2^Len(b) *)
Inc(b) == IF b = <<>> THEN <<>>
          ELSE LET n == Len(b) IN
               IF b[n] = 0 THEN [b EXCEPT ![n] = 1] ELSE Append(Inc(SubSeq(b, 1, n - 1)), 0)
Neg(b) == Inc(Flip(b))
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
UBits(n, w) == [i \in 1..w |-> (n \div Pow(w - i)) % 2]    \* small n, w < 31

(* ---- decoding *)
DecodeInt(T, b) == IF T.sg = 1 /\ b[1] = 1 THEN Fin(1, Neg(b), 0) ELSE Fin(0, b, 0)
DecodeFlt(T, b) ==
  LET s == b[1]
      x == BitsVal(SubSeq(b, 2, 1 + T.eb))
      f == SubSeq(b, 2 + T.eb, Len(b))
  IN IF x = Pow(T.eb) - 1 THEN (IF \E i \in DOMAIN f : f[i] = 1 THEN Nan ELSE Inf(s))
     ELSE IF x = 0 THEN Fin(s, f, Qmin(T))
     ELSE Fin(s, <<1>> \o f, x - Emax(T) - T.p + 1)
DecodeBits(T, b) == CASE T.k = "int" -> DecodeInt(T, b)
                      [] T.k = "bool" -> Fin(0, b, 0)
                      [] T.k = "flt" -> DecodeFlt(T, b)
Decode(T, bytes) == DecodeBits(T, Bits(bytes))

(* ---- encoding of numbers the type can hold *)
IntBits(x, w) ==    \* |x| as w bits; the low w bits if it is larger
  LET full == x.m \o Zeros(x.e) IN
  IF x.m = <<>> THEN Zeros(w)
  ELSE IF Len(full) >= w THEN SubSeq(full, Len(full) - w + 1, Len(full)) ELSE Zeros(w - Len(full)) \o full
EncodeInt(T, x) == IF x.s = 1 THEN Neg(IntBits(x, T.w)) ELSE IntBits(x, T.w)
EncodeFlt(T, x) ==
  CASE x.k = "nan" -> <<0>> \o Ones(T.eb) \o <<1>> \o Zeros(T.p - 2)
    [] x.k = "inf" -> <<x.s>> \o Ones(T.eb) \o Zeros(T.p - 1)
    [] x.k = "fin" /\ x.m = <<>> -> <<x.s>> \o Zeros(T.eb + T.p - 1)
    [] OTHER -> IF Top(x) - 1 >= 1 - Emax(T)
                THEN <<x.s>> \o UBits(Top(x) - 1 + Emax(T), T.eb) \o Tail(x.m) \o Zeros(T.p - Len(x.m))
                ELSE LET f == x.m \o Zeros(x.e - Qmin(T)) IN <<x.s>> \o Zeros(T.eb) \o Zeros(T.p - 1 - Len(f)) \o f
EncodeBits(T, x) == CASE T.k = "int" -> EncodeInt(T, x)
                      [] T.k = "bool" -> (IF IsZero(x) THEN Zeros(8) ELSE Zeros(7) \o <<1>>)
                      [] T.k = "flt" -> EncodeFlt(T, x)

(* ---- what a type can hold *)
InRange(T, x) ==     \* min(T) <= x <= max(T), for an integer type
  /\ x.k = "fin"
  /\ \/ x.m = <<>>
     \/ IF T.sg = 0
        THEN x.s = 0 /\ Top(x) <= T.w /\ ~(Top(x) = T.w /\ Len(x.m) > T.w /\ SubSeq(x.m, 1, T.w) = Ones(T.w))
        ELSE \/ Top(x) <= T.w - 1 /\ (x.s = 1 \/ ~(Top(x) = T.w - 1 /\ Len(x.m) > T.w - 1 /\ SubSeq(x.m, 1, T.w - 1) = Ones(T.w - 1)))
             \/ x.s = 1 /\ Top(x) = T.w /\ x.m = <<1>>
(* nearest representable number, ties to even; infinity beyond the largest *)
Round(T, x) ==
  IF x.k # "fin" \/ x.m = <<>> THEN x
  ELSE LET q == IF Top(x) - T.p > Qmin(T) THEN Top(x) - T.p ELSE Qmin(T)
           d == q - x.e
           y == IF d <= 0 THEN x
                ELSE IF d > Len(x.m) THEN Zero(x.s)
                ELSE LET kept == <<0>> \o SubSeq(x.m, 1, Len(x.m) - d)
                         up == x.m[Len(x.m) - d + 1] = 1 /\ (d > 1 \/ kept[Len(kept)] = 1)
                     IN Fin(x.s, IF up THEN Inc(kept) ELSE kept, q)
       IN IF y.m # <<>> /\ Top(y) > Emax(T) + 1 THEN Inf(x.s) ELSE y

(* ---- conversion.  Modes: nocheck, overflow, fractional, inexact           *)
Out(v) == [err |-> "no", v |-> v]
Fail == [err |-> "yes"]
Free == [err |-> "any"]        \* no promise
ConvReal(T, x, mode) ==
  CASE T.k = "bool" ->
         IF mode = "nocheck" THEN Out(IF IsZero(x) THEN Zero(0) ELSE One)
         ELSE IF IsZero(x) THEN Out(Zero(0)) ELSE IF Same(x, One) THEN Out(One) ELSE Fail
    [] T.k = "int" ->
         IF mode = "nocheck"
         THEN IF IsInt(x) THEN Out(DecodeInt(T, EncodeInt(T, x)))   \* modulo 2^w
              ELSE IF x.k = "fin" /\ InRange(T, Trunc(x)) THEN Out(Trunc(x)) ELSE Free
         ELSE IF ~InRange(T, x) THEN Fail
              ELSE IF IsInt(x) THEN Out(x)
              ELSE IF mode = "overflow" THEN Out(Trunc(x)) ELSE Fail
    [] T.k = "flt" ->
         LET y == Round(T, x) IN
         IF mode = "nocheck" THEN Out(y)
         ELSE IF x.k = "nan" THEN (IF mode = "inexact" THEN Free ELSE Out(x))
         ELSE IF x.k = "fin" /\ y.k = "inf" THEN Fail
         ELSE IF x.k = "fin" /\ ~SameValue(x, y) /\ Top(y) = Emax(T) + 1 /\ Len(y.m) = T.p
                 /\ y.m = Ones(T.p) THEN Free    \* around the largest finite number
         ELSE IF mode = "inexact" /\ ~SameValue(x, y) THEN Fail
         ELSE Out(y)
(* an integer that is out of range for nocheck from a floating point number is no promise *)
Conv(T, S, x, mode) ==
  IF S.k = "int" /\ S.w = 128 /\ T.k = "flt" /\ Len(x.m) > T.p THEN Free    \* how it is rounded is not promised
  ELSE IF S.k = "bool" /\ T.k = "int" /\ T.w = 128 THEN Free                \* not offered
  ELSE IF T.k = "int" /\ mode = "nocheck" /\ S.k = "flt" /\ ~(x.k = "fin" /\ InRange(T, Trunc(x))) THEN Free
  ELSE ConvReal(T, x, mode)
=============================================================================
