---------------------------- MODULE CompareTrace ---------------------------
(* Accepts recorded comparisons, sorts and searches exactly when each answer *)
(* is the one the values call for.                                           *)
EXTENDS DyndCompare, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r

Base(t) == IF t.k = "opt" THEN t.of ELSE t
Opt(t) == t.k = "opt"
L == Base(c.l.t)
R == Base(c.r.t)
AnyOpt == Opt(c.l.t) \/ Opt(c.r.t)
(* element i of an operand, which may be a scalar for all *)
At(o, i) == o.v[IF Len(o.v) = 1 THEN 1 ELSE i]
Max(a, b) == IF a > b THEN a ELSE b
N == IF Len(c.l.v) = 0 \/ Len(c.r.v) = 0 THEN 0 ELSE Max(Len(c.l.v), Len(c.r.v))
Compat == Len(c.l.v) = Len(c.r.v) \/ Len(c.l.v) = 1 \/ Len(c.r.v) = 1
Missing(o, i) == Opt(o.t) /\ IsNA(Types[o.t.of.n], At(o, i))
Good(op, i, b) ==
  IF Missing(c.l, i) \/ Missing(c.r, i) THEN b > 1
  ELSE LET w == Compare(op, L, At(c.l, i), R, At(c.r, i)) IN
       IF w = "free" THEN b \in {0, 1} ELSE b = IF w = "t" THEN 1 ELSE 0
EvCmp ==
  /\ ev.a = "cmp" /\ r.e # "CRASH"
  /\ \A k \in DOMAIN r.ops :
       LET o == r.ops[k]
           f == Offered(o.op, L, R)
       IN IF o.e # "" THEN f # "yes" \/ ~Compat
          ELSE Compat /\ (f = "yes" => /\ Len(o.v) = N
                            /\ o.t = (IF AnyOpt THEN "?bool" ELSE "bool")
                            /\ \A i \in 1..N : Good(o.op, i, o.v[i])
                            /\ o.v2 = o.v)
       /\ (f = "no" /\ o.e = "" => \A i \in DOMAIN o.v : o.v[i] = IF o.op = "equal" THEN 0 ELSE 1)
  \* arrays as wholes
  /\ LET same == c.l.tp = c.r.tp /\ Len(c.l.v) = Len(c.r.v) /\ L = R
         p == IF Len(c.l.v) # Len(c.r.v) THEN {"f"} ELSE {Eq(L, c.l.v[i], R, c.r.v[i]) : i \in DOMAIN c.l.v}
     IN c.exact = 1 => IF c.alias = 1 THEN p \subseteq {"t"} => r.ee = 1 ELSE r.ee = IF same /\ p \subseteq {"t"} THEN 1 ELSE 0
  /\ c.ae = 1 => LET p == {Eq(L, c.l.v[i], R, c.r.v[i]) : i \in DOMAIN c.l.v} IN
                 r.ae = IF "f" \in p THEN 0 ELSE IF "free" \in p THEN r.ae ELSE 1
EvSort ==
  /\ ev.a = "sort" /\ r.e = ""
  /\ Permutation(c.v, r.v) /\ r.gaps = 1
  /\ HasNaN(c.t, c.v) \/ Ordered(c.t, r.v)
EvSearch ==
  /\ ev.a = "search"
  /\ IF c.tp # c.xtp THEN r.e # "" ELSE r.e = "" /\ (Ordered(c.t, c.v) => Found(c.v, c.x, r.i))
EvOrder ==
  /\ ev.a = "torder" /\ r.e = ""
  /\ (r.lt # 0) = Before(c.t, c.x, c.y)
(* runs of equal elements become one *)
EvUnique ==
  /\ ev.a = "unique" /\ r.e = ""
  /\ r.v = LET f[i \in 0..Len(c.v)] == IF i = 0 THEN <<>>
                                      ELSE IF i > 1 /\ Eq(c.t, c.v[i - 1], c.t, c.v[i]) = "t" THEN f[i - 1]
                                      ELSE Append(f[i - 1], c.v[i])
           IN f[Len(c.v)]
Init == l = 1
Next == l <= Len(TraceLog) /\ (EvCmp \/ EvSort \/ EvSearch \/ EvOrder \/ EvUnique) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
