------------------------------ MODULE PrintTrace ----------------------------
(* Accepts the texts of printed arrays exactly when they show the value.     *)
EXTENDS DyndPrint, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
EvPrint == ev.a = "print" /\ ev.r.e = "" /\ Shown(ev.c.ty, ev.c.v, ev.c.tb, ev.r.s)
Init == l = 1
Next == l <= Len(TraceLog) /\ (EvPrint = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
