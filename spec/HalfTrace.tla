------------------------------ MODULE HalfTrace -----------------------------
(* Accepts what the library does with half-precision numbers exactly when it *)
(* is what DyndHalf says.                                                    *)
EXTENDS DyndHalf, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
B(p) == IF p THEN 1 ELSE 0
(* what came out of a conversion to half: the bits, or -1 *)
Became(x, o) ==
  LET y == Narrow(x) IN
  IF o < 0 THEN y.err # "no"
  ELSE y.err # "yes" /\ Same(HalfOf(o), y.v)
WidenOk(h, i) ==
  LET x == HalfOf(h)
      nan == x.k = "nan"
      zero == IsZero(x)
  IN /\ Same(Decode(Types["float32"], r.f[i]), x)
     /\ Same(Decode(Types["float64"], r.d[i]), x)
     /\ IF nan THEN r.bf[i] >= 0 /\ HalfOf(r.bf[i]).k = "nan" /\ r.bd[i] >= 0 /\ HalfOf(r.bd[i]).k = "nan"
        ELSE r.bf[i] = h /\ r.bd[i] = h
     /\ r.p[i] = <<B(zero), h \div 32768, B(nan), B(x.k = "inf"), B(x.k = "fin"), B(~zero), B(zero)>>
     /\ r.neg[i] >= 0 /\ Same(HalfOf(r.neg[i]), IF nan THEN Nan ELSE [x EXCEPT !.s = 1 - x.s])
     /\ r.fl[i] >= 0 /\ SameValue(HalfOf(r.fl[i]), FloorOf(x))
EvWiden == ev.a = "half_widen" /\ r.e = "" /\ Len(r.f) = c.n /\ \A i \in 1..c.n : WidenOk(c.h + i - 1, i)
EvNarrow == ev.a = "half_narrow" /\ r.e = "" /\ Len(r.o) = Len(c.v) /\ \A i \in DOMAIN c.v : Became(Decode(Types[c.t], c.v[i]), r.o[i])
(* towards zero *)
EvInt == ev.a = "half_int" /\ r.e = "" /\ Len(r.o) = Len(c.v)
         /\ \A i \in DOMAIN c.v : SameValue(Decode(Types[c.t], r.o[i]), Trunc(HalfOf(c.v[i])))
Six(x, y) == LET k == Rel(x, y) IN <<B(k = "lt"), B(k \in {"lt", "eq"}), B(k = "eq"), B(k # "eq"), B(k \in {"gt", "eq"}), B(k = "gt")>>
CmpOk(i) ==
  LET x == HalfOf(c.p[i][1])
      z == HalfOf(c.p[i][2])
      y == IF c.t = "int32" THEN Trunc(z) ELSE z
      o == r.o[i]
  IN /\ SubSeq(o, 1, 6) = Six(x, y)
     /\ (c.t = "float16" /\ x.k # "nan" /\ y.k # "nan") => o[7] = B(HLess(x, y)) /\ o[8] = B(HLess(x, y) \/ HEq(x, y))
EvCmp == ev.a = "half_cmp" /\ r.e = "" /\ Len(r.o) = Len(c.p) /\ \A i \in DOMAIN c.p : CmpOk(i)
Init == l = 1
Next == l <= Len(TraceLog) /\ ((EvWiden \/ EvNarrow \/ EvInt \/ EvCmp) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
