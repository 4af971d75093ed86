------------------------------ MODULE DyndHalf ------------------------------
(* Half-precision numbers: 1 bit of sign, 5 of exponent, 10 of significand.  *)
EXTENDS DyndCompare

HalfT == FltT(11, 5)
HalfOf(h) == DecodeFlt(HalfT, UBits(h, 16))
(* the place below which a type with precision p holds fewer bits *)
Normal(H, x) == Top(x) - 1 >= 1 - Emax(H)

(* ---- what the number x becomes in the type H:                             *)
(* what it holds exactly it keeps; a number in the range of normal numbers   *)
(* becomes the nearest one, ties to even; a number too small for it that H   *)
(* does not hold is refused; beyond the largest it is refused or infinite    *)
NarrowTo(H, x) ==
  IF x.k # "fin" \/ IsZero(x) THEN [err |-> "no", v |-> x]
  ELSE LET y == Round(H, x) IN
       IF ~Normal(H, x) THEN (IF Same(x, y) THEN Out(y) ELSE Fail)
       ELSE IF y.k = "inf" THEN [err |-> "may", v |-> y]
       ELSE Out(y)
Narrow(x) == NarrowTo(HalfT, x)

(* ---- the same on bits: a machine that works on fields, as hardware would. *)
(* W is the wide type and H the narrow one, with W.p > H.p, W.eb > H.eb      *)
FieldS(b) == b[1]
FieldE(T, b) == BitsVal(SubSeq(b, 2, 1 + T.eb))
FieldM(T, b) == SubSeq(b, 2 + T.eb, Len(b))
IsOnes(T, b) == FieldE(T, b) = Pow(T.eb) - 1
AnyOne(b) == \E i \in DOMAIN b : b[i] = 1
AllZero(b) == ~AnyOne(b)
(* exponent field e and the h = H.p - 1 leading bits of a significand, plus one in the last place if the rest calls for it *)
RoundFields(H, e, m) ==
  LET h == H.p - 1
      kept == UBits(e, H.eb) \o SubSeq(m, 1, h)
      rest == SubSeq(m, h + 1, Len(m))
      up == Len(rest) > 0 /\ rest[1] = 1 /\ (AnyOne(Tail(rest)) \/ kept[Len(kept)] = 1)
  IN IF up THEN Inc(kept) ELSE kept
NarrowBits(W, H, b) ==
  LET s == FieldS(b)
      e == FieldE(W, b)
      m == FieldM(W, b)
      ue == e - Emax(W)                                  \* the exponent
      he == ue + Emax(H)
  IN IF IsOnes(W, b) THEN [err |-> "no", b |-> <<s>> \o Ones(H.eb) \o (IF AllZero(m) THEN Zeros(H.p - 1) ELSE <<1>> \o Zeros(H.p - 2))]
     ELSE IF e = 0 /\ AllZero(m) THEN [err |-> "no", b |-> <<s>> \o Zeros(H.eb + H.p - 1)]
     ELSE IF ue > Emax(H) THEN [err |-> "may", b |-> <<s>> \o Ones(H.eb) \o Zeros(H.p - 1)]
     ELSE IF he <= 0                                     \* subnormal: the leading bit moves into the significand
          THEN LET full == Zeros(-he) \o (IF e = 0 THEN <<0>> ELSE <<1>>) \o m
                   full2 == IF e = 0 THEN Zeros(-(1 - Emax(W) + Emax(H))) \o <<0>> \o m ELSE full
               IN IF AnyOne(SubSeq(full2, H.p, Len(full2))) THEN [err |-> "yes", b |-> <<>>]
                  ELSE [err |-> "no", b |-> <<s>> \o Zeros(H.eb) \o SubSeq(full2, 1, H.p - 1)]
          ELSE LET k == RoundFields(H, he, m) IN
               [err |-> IF SubSeq(k, 1, H.eb) = Ones(H.eb) THEN "may" ELSE "no", b |-> <<s>> \o k]
RECURSIVE Lead(_, _)
Lead(m, i) == IF m[i] = 1 THEN i ELSE Lead(m, i + 1)
WidenBits(H, W, b) ==
  LET s == FieldS(b)
      e == FieldE(H, b)
      m == FieldM(H, b)
      pad(q) == q \o Zeros(W.p - 1 - Len(q))
  IN IF IsOnes(H, b) THEN <<s>> \o Ones(W.eb) \o pad(m)
     ELSE IF e = 0 THEN IF AllZero(m) THEN <<s>> \o Zeros(W.eb + W.p - 1)
                        ELSE LET k == Lead(m, 1) IN <<s>> \o UBits(1 - Emax(H) - k + Emax(W), W.eb) \o pad(SubSeq(m, k + 1, Len(m)))
     ELSE <<s>> \o UBits(e - Emax(H) + Emax(W), W.eb) \o pad(m)

(* ---- order *)
HLess(x, y) == Rel(x, y) = "lt"
HEq(x, y) == Rel(x, y) = "eq"
(* the largest whole number not beyond x *)
Floor(x) == IF x.k # "fin" \/ IsInt(x) THEN x
            ELSE LET t == Trunc(x) IN
                 IF x.s = 0 THEN Zero(0)
                 ELSE IF IsZero(t) THEN Fin(1, <<1>>, 0) ELSE Fin(1, Inc(<<0>> \o t.m \o Zeros(t.e)), 0)
FloorOf(x) == IF x.k = "fin" /\ ~IsInt(x) /\ x.s = 0 THEN Trunc(x) ELSE Floor(x)
=============================================================================
