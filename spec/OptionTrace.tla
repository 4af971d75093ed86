----------------------------- MODULE OptionTrace ----------------------------
(* Accepts recorded assignments from and to optional types, and observations *)
(* of optional arrays, exactly when missing values stay missing, available   *)
(* values convert as DyndNumber says, and no NA reaches a plain type.        *)
EXTENDS DyndOption, NumberTrace
Used == {c.ix[i] : i \in DOMAIN c.ix}

(* ---- assignment: element i of the source is c.v[c.ix[i]] *)
NaIn(b) == IF c.so = 1 THEN IsNA(S, b) ELSE c.do = 1 /\ S.k = "flt" /\ IsNA(S, b)
OMust(b) == IF NaIn(b) THEN c.do = 0 ELSE Must(b)
(* an available value whose conversion is what NA is stored as *)
Clash(b) == IF c.do = 1 /\ T.k \notin {"bool", "flt"} /\ ~NaIn(b) THEN ElemOk(b, NA(T)) ELSE FALSE
OMay(b) == ~NaIn(b) /\ (May(b) \/ Clash(b))
OElemOk(b, d) == IF NaIn(b) THEN IsNA(T, d) ELSE ElemOk(b, d)
EvOConv ==
  /\ ev.a = "oconv"
  /\ r.e # "CRASH"
  /\ IF \E k \in Used : OMust(c.v[k]) THEN r.e # ""
     ELSE IF r.e # "" THEN \E k \in Used : OMay(c.v[k])
     ELSE /\ Len(r.s) = Len(c.ix) /\ \A i \in DOMAIN c.ix : r.s[i] = c.v[c.ix[i]]
          /\ Len(r.v) = Len(c.ix)
          /\ \A k \in Used : \A d \in {r.v[i] : i \in {j \in DOMAIN c.ix : c.ix[j] = k}} : OElemOk(c.v[k], d)

(* ---- what every way of asking says about the elements of an optional array *)
EvScan ==
  /\ ev.a = "oscan" /\ r.e = ""
  /\ \A i \in DOMAIN c.ix : LET na == IF IsNA(T, c.v[c.ix[i]]) THEN 1 ELSE 0 IN
       /\ r.fn[i] = na /\ r.meth[i] = na /\ r.text[i] = na /\ r.json[i] = na
  /\ Len(r.fn) = Len(c.ix) /\ Len(r.meth) = Len(c.ix) /\ Len(r.text) = Len(c.ix) /\ Len(r.json) = Len(c.ix)

(* ---- assigning NA changes the elements of the array and nothing else       *)
EvSet ==
  /\ ev.a = "oset" /\ r.e = ""
  /\ Len(r.v) = Len(c.ix) /\ \A i \in DOMAIN c.ix : IsNA(T, r.v[i])
  /\ r.out = c.out

(* ---- text: words for NA, and decimal integers *)
RECURSIVE DecVal(_)
DecVal(w) == IF w = <<>> THEN 0 ELSE 10 * DecVal(SubSeq(w, 1, Len(w) - 1)) + (w[Len(w)] - 48)
IsDec(w) == w # <<>> /\ \A i \in DOMAIN w : w[i] \in 48..57
Words == [true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>]
Int31(n) == Fin(0, UBits(n, 30), 0)
EvText ==
  /\ ev.a = "otext" /\ r.e # "CRASH"
  /\ LET neg == c.w # <<>> /\ c.w[1] = 45
         w == IF neg THEN Tail(c.w) ELSE c.w
         x == LET y == Int31(DecVal(w)) IN IF neg /\ y.m # <<>> THEN [y EXCEPT !.s = 1] ELSE y
     IN IF (c.way = "json" /\ c.w = <<110, 117, 108, 108>>) \/ (c.way # "json" /\ IsNAWord(c.w)) THEN r.e = "" /\ IsNA(T, r.v)
        ELSE IF T.k = "bool"
        THEN IF c.w \in {Words.true, <<49>>} THEN r.e = "" /\ r.v = <<1>>
             ELSE IF c.w \in {Words.false, <<48>>} THEN r.e = "" /\ r.v = <<0>>
             ELSE r.e # ""                      \* the texts tried are no other booleans
        ELSE IF ~IsDec(w) THEN r.e # ""
        ELSE LET cv == Conv(T, T, x, "fractional") IN
             IF cv.err = "yes" THEN r.e # "" ELSE r.e = "" /\ SameValue(Decode(T, r.v), cv.v)

ONext == l <= Len(TraceLog) /\ (EvOConv \/ EvScan \/ EvSet \/ EvText) /\ l' = l + 1
OSpec == Init /\ [][ONext]_l
=============================================================================
