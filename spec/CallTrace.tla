----------------------------- MODULE CallTrace -----------------------------
(* Recorded registrations, lookups and calls are those of DyndCall.          *)
EXTENDS DyndCall, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
ev == TraceLog[l]
c == ev.c
r == ev.r
At(a) == l <= Len(TraceLog) /\ ev.a = a /\ l' = l + 1 /\ r.e # "CRASH"
Ty(ts) == Parse(ts).a
Sig(s) == [i \in DOMAIN s |-> Ty(s[i])]
Sigs(ss) == [i \in DOMAIN ss |-> Sig(ss[i])]
Entry(ss, x) == IF Admissible(x) THEN r.e = "" /\ r.n = Len(x) /\ reg' = x ELSE r.e # "" /\ reg' = ss
EvNew == At("dnew") /\ Entry(<<>>, Sigs(c.ss))
EvAdd == At("dadd") /\ Entry(reg, reg \o Sigs(c.ss))
EvFind == /\ \/ At("dfind") \/ At("dcall")
          /\ LET b == Best(reg, Sig(c.ts)) IN IF b = {} THEN r.e # "" ELSE r.e = "" /\ r.i \in b
          /\ UNCHANGED reg
EvCov == At("dcov") /\ r.e = "" /\ r.m = (IF Covers(Ty(c.ps), Ty(c.qs)) THEN 1 ELSE 0) /\ UNCHANGED reg

PromisedSig(s) == Promised(s.c[1]) /\ Promised(s.c[2]) /\ Promised(s.c[3]) /\ OneRole(s) /\ s.c[3].n[1] = 0
                  /\ Cardinality({s.c[3].s[i] : i \in DOMAIN s.c[3].s}) = Len(s.c[3].s)
EvCall ==
  /\ At("pcall") /\ UNCHANGED reg
  /\ LET s == Ty(c.ss)
         args == [i \in DOMAIN c.as |-> Ty(c.as[i])]
         kws == [i \in DOMAIN c.ks |-> [n |-> c.ks[i].n, t |-> Ty(c.ks[i].ts)]]
         x == Call(s, args, kws)
     IN s.k = "callable" /\ PromisedSig(s) /\ (\A i \in DOMAIN args : Simple(args[i])) /\ (\A i \in DOMAIN kws : Simple(kws[i].t)) =>
        /\ r.e = ""
        /\ r.err = 1 => r.run = 0
        /\ ~x.free => r.err = (IF x.ok THEN 0 ELSE 1)
        /\ x.ok /\ ~x.free =>
             /\ r.res = 1 /\ r.run = 1
             /\ r.args = [i \in 1..(IF s.c[2].n[1] = 1 THEN Len(args) ELSE Len(s.c[2].c)) |-> i]
             /\ r.tps = [i \in DOMAIN r.args |-> args[i]]
             /\ r.kw = x.kw
             /\ r.t = x.dt
             /\ r.dst = (IF x.dst > 0 THEN x.dst ELSE 0) /\ r.same = r.dst

Init == l = 1 /\ reg = <<>>
Next == EvNew \/ EvAdd \/ EvFind \/ EvCov \/ EvCall
Spec == Init /\ [][Next]_<<l, reg>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
