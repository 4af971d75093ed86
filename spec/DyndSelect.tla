---------------------------- MODULE DyndSelect ----------------------------
(* Ranges of numbers, selections of elements, and callables made of other    *)
(* callables.                                                                *)
EXTENDS DyndArith

RECURSIVE NatBits(_)
NatBits(n) == IF n = 0 THEN <<>> ELSE Append(NatBits(n \div 2), n % 2)
NatX(n) == Fin(0, NatBits(n), 0)
AbsX(x) == [x EXCEPT !.s = 0]
(* x <= y, for finite numbers *)
LeqX(x, y) == LET d == ExAdd(y, Neg1(x)) IN IsZero(d) \/ d.s = 0
ScaleX(x, k) == IF IsZero(x) THEN x ELSE [x EXCEPT !.e = @ + k]
RECURSIVE SmallVal(_, _)
SmallVal(b, acc) == IF b = <<>> THEN acc ELSE SmallVal(Tail(b), 2 * acc + Head(b))

(* ---- ranges: start, start + step, ... up to but without stop              *)
SameSide(d, s) == ~IsZero(d) /\ d.s = s.s
Diff(b, e) == ExAdd(e, Neg1(b))
Common2(x, y) == IF x.e < y.e THEN x.e ELSE y.e
(* |d| / |s| as <<quotient, remainder, |s|>>, all in units of the smaller exponent *)
Quot(d, s) == LET e == Common2(d, s)
                  u == StripL(Scale(s, e))
                  q == BDivMod(StripL(Scale(d, e)), u)
              IN <<q[1], q[2], u>>
(* the number of elements as bits, or Free. Floating point ranges are near a multiple of the step *)
HowMany(T, b, e, s) ==
  LET d == Diff(b, e) IN
  IF IsZero(s) THEN Fail
  ELSE IF ~SameSide(d, s) THEN Out(<<>>)
  ELSE LET q == Quot(d, s)
           up == BAdd(q[1], <<1>>)
       IN IF T.k = "int" THEN Out(IF q[2] = <<>> THEN q[1] ELSE up)
          ELSE IF Len(q[1]) > T.p - 4 THEN Free
          ELSE IF ~BLess(q[3], q[2] \o (IF q[2] = <<>> THEN <<>> ELSE <<0, 0, 0>>)) THEN (IF q[1] = <<>> THEN Free ELSE Out(q[1]))
          ELSE IF ~BLess(q[3], BSub(q[3], q[2]) \o <<0, 0, 0>>) THEN Out(up)
          ELSE Free
(* is v the i-th element (from 0)? exactly, where the type holds the steps there *)
Near(v, x, unit, k) == v.k = "fin" /\ LeqX(AbsX(ExAdd(v, Neg1(x))), ScaleX(unit, 0 - k))
MaxX(x, y) == IF LeqX(x, y) THEN y ELSE x
IsElement(T, b, s, i, v) ==
  LET p == ExMul(NatX(i), s)
      x == ExAdd(b, p)
  IN IF T.k = "int" THEN Same(v, [x EXCEPT !.s = IF x.m = <<>> THEN 0 ELSE @])
     ELSE IF ~Exact(T, p) \/ ~Exact(T, x) THEN Round(T, x).k # "fin" \/ Near(v, x, MaxX(AbsX(b), AbsX(p)), T.p - 2)
     ELSE SameValue(v, x)

(* ---- linspace: the i-th of n points divides the way from b to e evenly     *)
IsPoint(T, b, e, n, i, v) ==
  \/ b.k # "fin" \/ e.k # "fin"
  \/ Round(T, ScaleX(MaxX(AbsX(b), AbsX(e)), 12)).k # "fin"
  \/ LET w == NatX(n - 1)
         x == ExAdd(ExMul(NatX(n - 1 - i), b), ExMul(NatX(i), e))
         unit == MaxX(MaxX(AbsX(b), AbsX(e)), [One EXCEPT !.e = 2 - Emax(T)])
     IN v.k = "fin" /\ LeqX(AbsX(ExAdd(ExMul(w, v), Neg1(x))), ScaleX(ExMul(w, unit), 3 - T.p))

(* ---- limits *)
Highest(T) == CASE T.k = "int" -> Fin(0, Ones(T.w - T.sg), 0)
                [] OTHER -> Fin(0, Ones(T.p), Emax(T) - T.p + 1)
Lowest(T) == CASE T.k = "int" -> (IF T.sg = 1 THEN Fin(1, <<1>>, T.w - 1) ELSE Zero(0))
               [] OTHER -> Neg1(Highest(T))

(* ---- take: elements at the given places, or those the mask is true for     *)
Place(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1
Inside(n, ix) == \A k \in DOMAIN ix : ix[k] >= 0 - n /\ ix[k] < n
TakeAt(a, ix) == [k \in 1..Len(ix) |-> a[Place(Len(a), ix[k])]]
RECURSIVE TakeMask(_, _)
TakeMask(a, m) == IF a = <<>> THEN <<>>
                  ELSE (IF Head(m) = 1 THEN <<Head(a)>> ELSE <<>>) \o TakeMask(Tail(a), Tail(m))
(* where: the places of the elements below 11 *)
RECURSIVE Places11(_, _)
Places11(a, i) == IF i > Len(a) THEN <<>> ELSE (IF a[i] < 11 THEN <<i - 1>> ELSE <<>>) \o Places11(a, i + 1)

(* ---- outer: every combination of elements, the dimensions of the first operand first *)
Fun(v) == CASE Len(v) = 1 -> 7 * v[1] + 1
            [] Len(v) = 2 -> 10 * v[1] + v[2]
            [] Len(v) = 3 -> 100 * v[1] + 10 * v[2] + v[3]
(* v: the operands; d: how many dimensions each has *)
RECURSIVE Outer(_, _, _)
Outer(v, d, k) ==
  IF k > Len(v) THEN Fun(v)
  ELSE IF d[k] = 0 THEN Outer(v, d, k + 1)
  ELSE [i \in 1..Len(v[k]) |-> Outer([v EXCEPT ![k] = @[i]], [d EXCEPT ![k] = @ - 1], k)]

(* ---- compose: first the left, then the right *)
Leaf(f, x) == CASE f = 0 -> 2 * x [] f = 1 -> x + 1 [] f = 2 -> x * x [] f = 3 -> 0 - x
RECURSIVE Chain(_, _)
Chain(t, x) == IF "f" \in DOMAIN t THEN Leaf(t.f, x) ELSE Chain(t.r, Chain(t.l, x))
RECURSIVE MapD(_, _, _)
MapD(F(_), v, d) == IF d = 0 THEN F(v) ELSE [i \in 1..Len(v) |-> MapD(F, v[i], d - 1)]
RECURSIVE Zip(_, _, _, _)
Zip(F(_, _), v, w, d) == IF d = 0 THEN F(v, w) ELSE [i \in 1..Len(v) |-> Zip(F, v[i], w[i], d - 1)]
=============================================================================
