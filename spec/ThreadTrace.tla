---------------------------- MODULE ThreadTrace ----------------------------
(* Accepts what several threads saw of a shared object exactly when some      *)
(* interleaving of their programs shows it, and what they were answered at    *)
(* the same time exactly when it is what each is answered alone.              *)
EXTENDS DyndThread, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
Viewed == \E t \in 1..Len(c.q) : \E i \in 1..Len(c.q[t]) : c.q[t][i] = "v"
(* an element is read through a view of its own; a call refers to what it calls *)
Using == IF c.kind \in {"array", "callable"} THEN 2 ELSE 0
Whole == c.keep + TotalOf(c.q)
OkAnswer(o, t) ==
  LET as == Asked(c.q[t]) IN
  /\ Len(o.n[t]) = Len(as)
  /\ \A j \in 1..Len(as) : IF c.q[t][as[j]] = "u" THEN o.n[t][j] = 42
                           ELSE (c.kind = "array" /\ Viewed) \/ MayCount(c.q, Using, c.keep, t, as[j], o.n[t][j])
OkOutcome(o) ==
  /\ \A t \in 1..Len(c.q) : OkAnswer(o, t)
  /\ (c.kind = "array" /\ Viewed) \/ o.left = Whole
  /\ o.alive = (IF Whole = 0 THEN 0 ELSE 1)
  /\ o.after = 0
EvRefs == /\ ev.a = "refs" /\ r.e = "" /\ Len(r.outs) > 0
          /\ \A i \in 1..Len(r.outs) : OkOutcome(r.outs[i])
EvTogether == ev.a \in {"together", "burst"} /\ r.e = "" /\ r.n > 0 /\ r.odd = <<>>

Init == l = 1
Next == l <= Len(TraceLog) /\ l' = l + 1 /\ ((EvRefs \/ EvTogether) = TRUE)
TraceSpec == Init /\ [][Next]_<<l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d = Len(TraceLog) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
