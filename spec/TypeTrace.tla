----------------------------- MODULE TypeTrace -----------------------------
(* Accepts recorded calls on types exactly when they are what DyndType says. *)
EXTENDS DyndMatch, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
At(a) == l <= Len(TraceLog) /\ ev.a = a /\ l' = l + 1 /\ r.e # "CRASH"

EvParse ==
  /\ At("tparse")
  /\ LET p == Parse(c.ts) IN
     \/ p.e = "free"
     \/ p.e = "bad" /\ r.e # ""
     \/ /\ p.e = "ok" /\ r.e = ""
        /\ r.t = p.a /\ r.rt = p.a /\ r.eq = 1 /\ r.s2 = r.s
        /\ r.ndim = Ndim(p.a)
        /\ r.sym = (IF Symbolic(p.a) THEN 1 ELSE 0)
        /\ ~Symbolic(p.a) => r.dsize = DSize(p.a) /\ r.align = Align(p.a)
EvEq ==
  /\ At("teq")
  /\ LET x == Parse(c.xs) y == Parse(c.ys) IN
     \/ x.e = "free" \/ y.e = "free"
     \/ "bad" \in {x.e, y.e} /\ r.e # ""
     \/ /\ x.e = "ok" /\ y.e = "ok" /\ r.e = ""
        /\ r.x = x.a /\ r.y = y.a
        /\ r.eq = (IF x.a = y.a THEN 1 ELSE 0) /\ r.qe = r.eq /\ r.ne = 1 - r.eq
EvAt ==
  /\ At("tat") /\ r.e = ""
  /\ LET x == Parse(c.xs).a
         q == Parse(c.rs).a
         d == DimsOf(x)
         n == c.n
     IN /\ r.x = x
        /\ d = Ndim(x) =>
             /\ r.dt = (IF n > d THEN Error ELSE Strip(x, d - n))
             /\ (n > d /\ HasEllipsis(x)) \/ r.td = (IF n > d THEN Error ELSE Strip(x, n))
             /\ ~Symbolic(x) =>
                  /\ r.wd = (IF n > d THEN Error ELSE Replace(x, d - n, q))
                  /\ r.wa = (IF n > d THEN Error ELSE Replace(x, n, Ones(c.k, Strip(x, n))))
                  /\ r.ct = x
Norm(role, t) == IF role = "dim" THEN Head1(t) ELSE t
EnvOk(vars, e) == /\ {vars[i].k : i \in DOMAIN vars} = DOMAIN e
                  /\ \A i \in DOMAIN vars : Norm(e[vars[i].k].r, vars[i].t) = e[vars[i].k].a
EvMatch ==
  /\ At("tmatch")
  /\ LET pp == Parse(c.ps) qq == Parse(c.qs)
         p == pp.a
         q == qq.a
         m == Match(p, q, NoEnv)
     IN pp.e = "ok" /\ qq.e = "ok" =>
        /\ Conc(q) => r.e = "" /\ r.p = p /\ r.q = q /\ r.m = r.m2
        /\ Promised(p) /\ Conc(q) /\ Simple(q) =>
             /\ r.m = (IF m.ok THEN 1 ELSE 0)
             /\ m.ok => /\ EnvOk(r.vars, m.e)
                        /\ r.sub = Subst(p, m.e, FALSE)
(* c.vs: for every name the role and the tokens of its value *)
EvSubst ==
  /\ At("tsubst")
  /\ LET pp == Parse(c.ps)
         p == pp.a
         val(i) == LET a == Parse(c.vs[i].ts).a IN [r |-> c.vs[i].r, a |-> IF c.vs[i].r = "dim" THEN Head1(a) ELSE a]
         e == [x \in {c.vs[i].k : i \in DOMAIN c.vs} |-> val(CHOOSE i \in DOMAIN c.vs : c.vs[i].k = x)]
         z == Subst(p, e, c.conc = 1)
     IN pp.e = "ok" /\ OneRole(p) /\ Simple(p) =>
             IF z = Error THEN r.e # "" ELSE r.e = "" /\ r.sub = z
Init == l = 1
Next == EvParse \/ EvEq \/ EvAt \/ EvMatch \/ EvSubst
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
