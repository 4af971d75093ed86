------------------------------- MODULE ArithMC -------------------------------
(* The laws of arithmetic on every pair of values of small machine types,    *)
(* against plain integer arithmetic, and the boundary numbers to replay.     *)
EXTENDS DyndArith, Json
CONSTANTS Ks, Wide
VARIABLES S, T, x, y

Mini == IF Wide THEN <<IntT(5, 1), IntT(5, 0), FltT(3, 3), FltT(4, 3)>> ELSE <<IntT(4, 1), IntT(3, 0), FltT(3, 3), FltT(2, 3)>>
W(U) == IF U.k = "int" THEN U.w ELSE U.p + U.eb
All(U) == [1..W(U) -> {0, 1}]
None == <<-1>>
Init == S \in 1..Len(Mini) /\ T = 0 /\ x \in All(Mini[S]) /\ y = None
Next == T = 0 /\ T' \in 1..Len(Mini) /\ y' \in All(Mini[T']) /\ UNCHANGED <<S, x>>
a == DecodeBits(Mini[S], x)
b == DecodeBits(Mini[T], y)
U1 == Mini[S]
U2 == Mini[T]
(* the numbers as integers, in units of 2^-8 *)
Scaled(v) == LET n == BitsVal(v.m) * Pow(v.e + 8) IN IF v.s = 1 THEN -n ELSE n
IntV(v) == Scaled(v) \div 256
Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(n, m) == IF (n < 0) = (m < 0) THEN Abs(n) \div Abs(m) ELSE -(Abs(n) \div Abs(m))
TMod(n, m) == n - m * TDiv(n, m)
Wrap(U, n) == n % Pow(U.w)
SignedVal(U, n) == IF U.sg = 1 /\ n >= Pow(U.w - 1) THEN n - Pow(U.w) ELSE n
InR(U, n) == IF U.sg = 1 THEN n >= -Pow(U.w - 1) /\ n < Pow(U.w - 1) ELSE TRUE
IntPair == T # 0 /\ S = T /\ U1.k = "int"
Both(r, n) == IF InR(U1, n) THEN r.err = "no" /\ IntV(r.v) = SignedVal(U1, Wrap(U1, n)) /\ IsInt(r.v) ELSE r.err = "any"
RECURSIVE BitAnd(_, _)
BitAnd(n, m) == IF n = 0 \/ m = 0 THEN 0 ELSE 2 * BitAnd(n \div 2, m \div 2) + (n % 2) * (m % 2)
IntMeaning == IntPair =>
  LET n == IntV(a)
      m == IntV(b)
      f(op) == IntBin(op, U1, a, b)
      an == BitAnd(Wrap(U1, n), Wrap(U1, m))
      bit(r, k) == r.err = "no" /\ IntV(r.v) = SignedVal(U1, k)
  IN /\ Both(f("add"), n + m) /\ Both(f("subtract"), n - m) /\ Both(f("multiply"), n * m)
     /\ IF m = 0 THEN f("divide").err = "yes" /\ f("mod").err = "yes"
        ELSE /\ Both(f("divide"), TDiv(n, m))
             /\ (InR(U1, TDiv(n, m)) => f("mod").err = "no" /\ IntV(f("mod").v) = TMod(n, m))
             /\ (f("divide").err = "no" /\ U1.sg = 1 => n = m * IntV(f("divide").v) + IntV(f("mod").v))
     /\ bit(f("bitwise_and"), an)
     /\ bit(f("bitwise_or"), Wrap(U1, n) + Wrap(U1, m) - an)
     /\ bit(f("bitwise_xor"), Wrap(U1, n) + Wrap(U1, m) - 2 * an)
     /\ LET s == Shift("left_shift", U1, a, b) IN
        IF m < 0 \/ m >= U1.w \/ n < 0 THEN s.err = "any" ELSE Both(s, n * Pow(m))
     /\ LET s == Shift("right_shift", U1, a, b) IN
        IF m < 0 \/ m >= U1.w THEN s.err = "any" ELSE s.err = "no" /\ IntV(s.v) = n \div Pow(m)
(* a floating point result is as near to the exact one as any number of the type *)
FltPair == T # 0 /\ U1.k = "flt" /\ U2.k = "flt"
C == CommonA(U1, U2)
Values == {DecodeBits(C, w) : w \in All(C)}
Fins == {v \in Values : v.k = "fin"}
Limit == Scaled([k |-> "fin", s |-> 0, m |-> <<1>>, e |-> Emax(C) + 1])     \* where infinity would stand
Even(v) == Len(v.m) < C.p /\ (Top(v) - C.p >= Qmin(C) \/ v.e > Qmin(C) \/ v.m = <<>>)
(* |n/d - v| <= |n/d - w| for every w, d > 0 *)
Nearest(r, n, d) ==
  LET dist(v) == Abs(n - Scaled(v) * d) IN
  IF r.k = "inf" THEN (IF r.s = 1 THEN -n ELSE n) * 2 >= d * (Limit + Limit - Scaled([k |-> "fin", s |-> 0, m |-> <<1>>, e |-> Emax(C) + 1 - C.p]))
  ELSE r.k = "fin" /\ (\A w \in Fins : dist(r) < dist(w) \/ SameValue(w, r) \/ (dist(r) = dist(w) /\ Even(r)))
       /\ Abs(n) * 2 < d * (Limit + Limit - Scaled([k |-> "fin", s |-> 0, m |-> <<1>>, e |-> Emax(C) + 1 - C.p]))
FltMeaning == FltPair /\ a.k = "fin" /\ b.k = "fin" =>
  LET f(op) == FltBin(op, C, a, b).v IN
  /\ Nearest(f("add"), Scaled(a) + Scaled(b), 1)
  /\ Nearest(f("subtract"), Scaled(a) - Scaled(b), 1)
  /\ Nearest(f("multiply"), Scaled(a) * Scaled(b), 256)
  /\ IF IsZero(b) THEN f("divide").k \in {"inf", "nan"}
     ELSE Nearest(f("divide"), Scaled(a) * 256 * (IF Scaled(b) < 0 THEN -1 ELSE 1), Abs(Scaled(b)))
FltLaws == FltPair =>
  LET f(op, u, v) == FltBin(op, C, u, v).v IN
  /\ Same(f("add", a, b), f("add", b, a)) /\ Same(f("multiply", a, b), f("multiply", b, a))
  /\ Same(f("add", Neg1(a), Neg1(b)), Neg1(f("add", a, b))) \/ IsZero(f("add", a, b))
  /\ (a.k = "nan" \/ b.k = "nan" => \A op \in Arith : f(op, a, b).k = "nan")
  /\ f("add", a, b).k # "fin" \/ f("add", a, b) \in Values
SqrtMeaning == T = 0 /\ U1.k = "flt" /\ a.k = "fin" /\ (a.s = 0 \/ IsZero(a)) =>
  LET r == FltSqrt(U1, a) IN
  /\ r.k = "fin"
  /\ \A w \in {v \in {DecodeBits(U1, q) : q \in All(U1)} : v.k = "fin" /\ v.s = 0 /\ ~SameValue(v, r)} :
       LET mid == Scaled(r) + Scaled(w)      \* twice the midpoint
       IN IF Scaled(w) < Scaled(r) THEN mid * mid <= 4 * 256 * Scaled(a) ELSE mid * mid >= 4 * 256 * Scaled(a)

(* promotion: the order of the types does not matter, and a type promotes to itself or int32 *)
PNames == RealNames \cup Cpx
ASSUME \A s, t \in PNames : PromoteName(s, t) = PromoteName(t, s)
ASSUME \A s \in PNames : PromoteName(s, s) \in {s, "int32"}
ASSUME \A s, t \in PNames : LET n == PromoteName(s, t) IN PromoteName(n, s) \in {n, "int32"} /\ PromoteName(n, t) \in {n, "int32"}

(* -- boundary numbers of the machine types *)
Near == {Fin(sg, IF dd >= 0 THEN (IF k = 0 THEN UBits(1 + dd, 2) ELSE <<1>> \o Zeros(k - 1) \o <<dd>>)
                 ELSE (IF k = 0 THEN <<0>> ELSE Ones(k)), j) : sg \in {0, 1}, k \in Ks, dd \in {-1, 0, 1}, j \in {-1, 0}}
Special == {Inf(0), Inf(1), Nan, Zero(1), Fin(0, Ones(24), 104), Fin(1, Ones(53), 971), Fin(0, <<1>>, -149), Fin(0, <<1>>, -1074), Fin(1, <<1>>, -149)}
Can(U, v) == CASE U.k = "int" -> IsInt(v) /\ InRange(U, v) [] U.k = "bool" -> IsZero(v) \/ Same(v, One) [] U.k = "flt" -> Same(Round(U, v), v)
Cases == [n \in RealNames |-> {Bytes(EncodeBits(Types[n], v)) : v \in {w \in Near \cup (IF Types[n].k = "flt" THEN Special ELSE {}) : Can(Types[n], w)}}]
ASSUME PrintT("GEN " \o ToJson([k |-> "num", c |-> Cases]))
=============================================================================
