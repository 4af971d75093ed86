----------------------------- MODULE NumberTrace ----------------------------
(* Accepts recorded assignments between numeric types exactly when every     *)
(* element is the conversion DyndNumber defines, or the assignment raises an *)
(* error because some element cannot be converted under the mode.            *)
EXTENDS DyndNumber, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
S == Types[c.st]
T == Types[c.dt]
Mode == IF c.mode = "none" THEN "fractional" ELSE c.mode
Cpx(U) == U.k = "cpx"
Re(U, b) == IF Cpx(U) THEN Decode(U.el, SubSeq(b, 1, Len(b) \div 2)) ELSE Decode(U, b)
Im(U, b) == IF Cpx(U) THEN Decode(U.el, SubSeq(b, Len(b) \div 2 + 1, Len(b))) ELSE Zero(0)
Real(U) == IF Cpx(U) THEN U.el ELSE U

(* the conversions of the real and imaginary part of an element *)
ReC(b) == IF T.k = "bool" /\ Cpx(S) /\ Mode = "nocheck" /\ ~IsZero(Im(S, b)) THEN Out(One)
          ELSE Conv(Real(T), Real(S), Re(S, b), Mode)
ImC(b) == IF Cpx(T) THEN Conv(T.el, Real(S), Im(S, b), Mode)
          ELSE IF Mode # "nocheck" /\ ~IsZero(Im(S, b)) THEN Fail ELSE Out(Zero(0))
Must(b) == ReC(b).err = "yes" \/ ImC(b).err = "yes"
May(b) == ReC(b).err = "any" \/ ImC(b).err = "any"
Match(cv, got, U) == IF cv.err = "any" THEN TRUE ELSE IF U.k = "flt" THEN Same(cv.v, got) ELSE SameValue(cv.v, got)
ElemOk(b, d) == /\ Match(ReC(b), Re(T, d), Real(T))
                /\ Cpx(T) => (IF Cpx(S) THEN Match(ImC(b), Im(T, d), T.el) ELSE IsZero(Im(T, d)))

EvConv ==
  /\ l <= Len(TraceLog) /\ ev.a = "conv" /\ l' = l + 1
  /\ IF \E i \in DOMAIN c.v : Must(c.v[i]) THEN r.e # "" /\ r.e # "CRASH"
     ELSE IF r.e # "" THEN r.e # "CRASH" /\ \E i \in DOMAIN c.v : May(c.v[i])
     ELSE /\ r.s = c.v /\ Len(r.v) = Len(c.v)
          /\ \A i \in DOMAIN c.v : ElemOk(c.v[i], r.v[i])
Init == l = 1
Next == EvConv
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
