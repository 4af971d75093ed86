------------------------------ MODULE DyndText ------------------------------
(* What number a text denotes, and what storing a text in a number means.    *)
(* Texts are sequences of bytes (ASCII).  Large naturals are little-endian   *)
(* sequences of limbs below 2^16, so that any number of decimal digits and   *)
(* any decimal exponent is handled exactly.                                  *)
EXTENDS DyndOption

(* ---- naturals as limbs *)
RECURSIVE MulAdd(_, _, _)
MulAdd(x, k, a) ==       \* x * k + a, k and a at most 10^4
  IF x = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a>>)
  ELSE LET p == x[1] * k + a IN <<p % 65536>> \o MulAdd(Tail(x), k, p \div 65536)
RECURSIVE DivRem(_, _, _)
DivRem(x, k, r) ==       \* <<x div k, x mod k>> from the most significant limb down, r the remainder so far
  IF x = <<>> THEN <<<<>>, r>>
  ELSE LET p == r * 65536 + x[Len(x)]
           rest == DivRem(SubSeq(x, 1, Len(x) - 1), k, p % k)
       IN <<Append(rest[1], p \div k), rest[2]>>
RECURSIVE LimbBits(_)
LimbBits(x) == IF x = <<>> THEN <<>> ELSE UBits(x[Len(x)], 16) \o LimbBits(SubSeq(x, 1, Len(x) - 1))
RECURSIVE DigitsVal(_), Limbs(_)
DigitsVal(d) == IF d = <<>> THEN 0 ELSE 10 * DigitsVal(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
P10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000
Limbs(d) ==              \* the natural a sequence of decimal digits denotes
  IF Len(d) <= 4 THEN LET n == DigitsVal(d) IN IF n = 0 THEN <<>> ELSE <<n>>
  ELSE MulAdd(Limbs(SubSeq(d, 1, Len(d) - 4)), 10000, DigitsVal(SubSeq(d, Len(d) - 3, Len(d))))
RECURSIVE Times10(_, _)
Times10(x, k) == IF k = 0 THEN x ELSE IF k < 4 THEN MulAdd(x, P10(k), 0) ELSE Times10(MulAdd(x, 10000, 0), k - 4)
RECURSIVE Over10(_, _, _)
Over10(x, k, sticky) ==  \* <<x div 10^k, whether something was left over>>
  IF k = 0 THEN <<x, sticky>>
  ELSE LET s == IF k < 4 THEN k ELSE 4
           q == DivRem(x, P10(s), 0)
       IN Over10(q[1], k - s, sticky \/ q[2] # 0)
(* (-1)^s * d * 10^k.  Exact if k >= 0 or 10^-k divides; otherwise cut after *)
(* at least 80 significant bits, with a last bit that says something is left *)
Number(s, d, k) ==
  LET x == Limbs(d) IN
  IF k >= 0 THEN Fin(s, LimbBits(Times10(x, k)), 0)
  ELSE LET z == (-k) \div 4 + 6                \* limbs of zeros: 16 * z > 80 + 4 * (-k) - (bits of x)
           q == Over10([i \in 1..z |-> 0] \o x, -k, FALSE)
       IN Fin(s, LimbBits(q[1]) \o (IF q[2] THEN <<1>> ELSE <<0>>), -16 * z - 1)

(* ---- the grammar of numbers: -? digits [. digits] [(e|E) [+|-] digits], at least one digit in the mantissa *)
IsDigit(ch) == ch \in 48..57
RECURSIVE Run(_, _)
Run(w, i) == IF i <= Len(w) /\ IsDigit(w[i]) THEN Run(w, i + 1) ELSE i     \* the first index from i on with no digit
Dig(w, i, j) == [k \in 1..(j - i) |-> w[i + k - 1] - 48]
RECURSIVE Lead(_)
Lead(d) == IF d # <<>> /\ d[1] = 0 THEN Lead(Tail(d)) ELSE d
RECURSIVE Trail(_)
Trail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trail(SubSeq(d, 1, Len(d) - 1)) ELSE d
Parse(w) ==
  LET i0 == IF w # <<>> /\ w[1] = 45 THEN 2 ELSE 1
      i1 == Run(w, i0)
      dot == i1 <= Len(w) /\ w[i1] = 46
      f0 == IF dot THEN i1 + 1 ELSE i1
      f1 == IF dot THEN Run(w, f0) ELSE f0
      exp == f1 <= Len(w) /\ w[f1] \in {69, 101}
      sg == exp /\ f1 + 1 <= Len(w) /\ w[f1 + 1] \in {43, 45}
      e0 == f1 + 1 + (IF sg THEN 1 ELSE 0)
      e1 == IF exp THEN Run(w, e0) ELSE f1
      ed == Lead(Dig(w, e0, e1))
      int == Dig(w, i0, i1)
      frac == Trail(Dig(w, f0, f1))
      ok == (i1 > i0 \/ f1 > f0) /\ (exp => e1 > e0) /\ (IF exp THEN e1 ELSE f1) = Len(w) + 1
      neg == sg /\ w[f1 + 1] = 45
      ev == IF Len(ed) > 4 THEN 99999 ELSE DigitsVal(ed)
  IN [ok |-> ok, s |-> i0 - 1, d |-> Lead(int \o frac), k |-> (IF exp THEN (IF neg THEN -ev ELSE ev) ELSE 0) - Len(frac),
      plain |-> ok /\ ~dot /\ ~exp,
      \* digits with an exponent that is not negative, or with zeros after the point: an integer by its spelling
      whole |-> ok /\ i1 > i0 /\ (IF exp THEN ~dot /\ ~neg /\ Len(ed) <= 2 ELSE frac = <<>>)]
Denotes(p) == IF p.d = <<>> THEN Zero(p.s) ELSE Number(p.s, p.d, p.k)
(* an exponent so large that the number is beyond or below every type *)
Extreme(p) == p.d # <<>> /\ (p.k + Len(p.d) > 400 \/ p.k + Len(p.d) < -400)

LowerW(w) == [i \in DOMAIN w |-> Lower(w[i])]
NanW == {<<110, 97, 110>>}
InfW == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
TrueW == {<<49>>, <<116>>, <<121>>, <<116, 114, 117, 101>>, <<121, 101, 115>>, <<111, 110>>}
FalseW == {<<48>>, <<102>>, <<110>>, <<102, 97, 108, 115, 101>>, <<110, 111>>, <<111, 102, 102>>}
(* other spellings of numbers that some readers accept: no promise *)
Space == {9, 10, 11, 12, 13, 32}
Odd(w) == \/ w # <<>> /\ (w[1] \in Space \cup {43} \/ w[Len(w)] \in Space)
          \/ \E i \in DOMAIN w : w[i] \in {120, 88, 40, 35, 80, 112}

(* ---- storing a text in a number: [err, v] as for Conv *)
FromText(T, w, mode) ==
  LET p == Parse(w)
      body == IF w # <<>> /\ w[1] = 45 THEN Tail(w) ELSE w
      sg == IF w # <<>> /\ w[1] = 45 THEN 1 ELSE 0
  IN CASE T.k = "bool" ->
            IF LowerW(w) \in TrueW THEN Out(One) ELSE IF LowerW(w) \in FalseW THEN Out(Zero(0))
            ELSE IF mode = "nocheck" \/ Odd(w) THEN Free ELSE Fail
       [] T.k = "int" ->
            IF ~p.ok THEN IF mode = "nocheck" \/ Odd(w) THEN Free ELSE Fail
            ELSE IF Extreme(p) THEN IF mode = "nocheck" THEN Free ELSE Fail
            ELSE LET x == Denotes(p) IN
                 IF IsInt(x) /\ InRange(T, x)
                 THEN IF (p.plain \/ (p.whole /\ mode # "nocheck")) /\ ~(T.sg = 0 /\ p.s = 1) THEN Out(x)
                      ELSE IF mode = "nocheck" THEN Free ELSE [err |-> "may", v |-> x]
                 ELSE IF mode = "nocheck" THEN Free
                 ELSE IF mode = "overflow" /\ x.k = "fin" /\ ~IsInt(x) /\ InRange(T, Trunc(x)) THEN [err |-> "may", v |-> Trunc(x)]
                 ELSE Fail
       [] T.k = "flt" ->
            IF LowerW(body) \in NanW THEN Out(Nan)
            ELSE IF LowerW(body) \in InfW THEN Out(Inf(sg))
            ELSE IF ~p.ok THEN IF mode = "nocheck" \/ Odd(w) THEN Free ELSE Fail
            ELSE IF Extreme(p) THEN [err |-> "may", v |-> IF p.k > 0 THEN Inf(p.s) ELSE Zero(p.s)]
            ELSE LET x == Denotes(p)
                     y == Round(T, x)
                 IN IF y.k = "inf" \/ (~SameValue(x, y) /\ Top(y) = Emax(T) + 1 /\ y.m = Ones(T.p)) THEN [err |-> "may", v |-> y]   \* around the largest finite number
                    ELSE IF mode = "inexact" /\ ~SameValue(x, y) THEN [err |-> "may", v |-> y]
                    ELSE IF ~IsZero(x) /\ (IsZero(y) \/ Top(y) <= 1 - Emax(T)) THEN [err |-> "may", v |-> y]   \* underflow
                    ELSE Out(y)
       [] T.k = "cpx" -> Free
(* the bytes a text is stored as are right *)
TextOk(T, w, mode, bytes) ==
  LET f == FromText(T, w, mode) IN
  IF f.err = "any" THEN TRUE
  ELSE IF f.err = "yes" THEN FALSE
  ELSE \/ SameValue(Decode(T, bytes), f.v)
       \* float32 is read by way of float64, which rounds twice
       \/ /\ T.k = "flt" /\ T.p < 53 /\ f.v.k = "fin"
          /\ LET p == Parse(w) IN
             p.ok /\ ~Extreme(p) /\ SameValue(Decode(T, bytes), Round(T, Round(Types["float64"], Denotes(p))))
TextMust(T, w, mode) == FromText(T, w, mode).err = "yes"
TextMay(T, w, mode) == FromText(T, w, mode).err # "no"
=============================================================================
