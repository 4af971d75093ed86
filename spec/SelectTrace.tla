---------------------------- MODULE SelectTrace ----------------------------
(* Accepts recorded ranges, selections and combined calls exactly when the    *)
(* answers are the ones the operands call for.                               *)
EXTENDS DyndSelect, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
Text(n) == CASE n = "complex64" -> "complex[float32]" [] n = "complex128" -> "complex[float64]" [] OTHER -> n
Val(T, b) == Decode(T, b)
Bad == r.e # ""
Ok == r.e = ""

RangeTypes == IF c.how = "old" THEN {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
           ELSE {"int32", "int64", "float32", "float64"}
Given(k) == \E i \in DOMAIN c.kw : c.kw[i] = k
(* nd::range: start alone is the stop; without a start it begins at 0; without a step it goes by 1 *)
AllGiven == c.how = "old" \/ (Given("start") /\ Given("stop") /\ Given("step"))
EvRange ==
  /\ ev.a = "range" /\ r.e # "CRASH"
  /\ IF c.n \notin RangeTypes THEN Bad
     ELSE IF ~AllGiven /\ ~(Given("start") /\ ~Given("step")) THEN TRUE     \* other combinations are not said
     ELSE LET T == Types[c.n]
              b == IF AllGiven \/ Given("stop") THEN Val(T, c.b) ELSE Zero(0)
              e == IF AllGiven \/ Given("stop") THEN Val(T, c.e) ELSE Val(T, c.b)
              s == IF AllGiven THEN Val(T, c.s) ELSE One
          IN IF b.k # "fin" \/ e.k # "fin" \/ s.k # "fin" THEN TRUE
             ELSE LET w == HowMany(T, b, e, s) IN
               IF w.err = "yes" THEN Bad
               ELSE IF "dst" \in DOMAIN c /\ w.err = "any" THEN TRUE
               ELSE IF "dst" \in DOMAIN c /\ (c.dst # ToString(SmallVal(w.v, 0)) \o " * " \o c.n) THEN Bad
               ELSE /\ Ok /\ (w.err = "no" => Len(r.v) = SmallVal(w.v, 0))
                    /\ r.t = ToString(Len(r.v)) \o " * " \o c.n
                    /\ \A i \in 1..Len(r.v) : IsElement(T, b, s, i - 1, Val(T, r.v[i]))
Parts(n, b) == IF n \in Cpx THEN <<Decode(Types[n].el, Half(b, 0)), Decode(Types[n].el, Half(b, 1))>> ELSE <<Decode(Types[n], b)>>
El(n) == IF n \in Cpx THEN Types[n].el ELSE Types[n]
LinN == IF c.how = 0 THEN c.rn ELSE IF c.n \in IntNames THEN "float64" ELSE c.n
EvLinspace ==
  /\ ev.a = "linspace" /\ r.e # "CRASH"
  /\ IF c.k < 2 \/ LinN \in IntNames THEN Bad
     ELSE /\ Ok /\ r.t = ToString(c.k) \o " * " \o Text(LinN) /\ Len(r.v) = c.k
          /\ LET b == Parts(c.n, c.b)
                 e == Parts(c.n, c.e)
             IN \A i \in 1..c.k : LET v == Parts(LinN, r.v[i]) IN
                  \A h \in DOMAIN v : IF h \in DOMAIN b THEN IsPoint(El(LinN), b[h], e[h], c.k, i - 1, v[h]) ELSE IsZero(v[h])
EvLimits ==
  /\ ev.a = "limits" /\ r.e # "CRASH"
  /\ IF c.n \in Reals \ {"bool"} THEN Ok /\ Same(Val(Types[c.n], r.hi[1]), Highest(Types[c.n])) /\ Same(Val(Types[c.n], r.lo[1]), Lowest(Types[c.n]))
     ELSE Bad

(* a: the elements as the driver shows them; c.i.v: places, or a mask of 0 and 1 *)
EvTake ==
  /\ ev.a = "take" /\ r.e # "CRASH"
  /\ LET mask == c.i.n = "bool"
         n == Len(r.src)
         want == IF mask THEN TakeMask(r.src, c.i.v) ELSE TakeAt(r.src, c.i.v)
         t == (IF mask THEN "var" ELSE ToString(Len(c.i.v))) \o " * " \o c.x.el
     IN IF c.x.fixed = 0 \/ c.i.fixed = 0 \/ c.i.n \notin {"bool", "int64"} THEN Bad
        ELSE IF (IF mask THEN Len(c.i.v) # n ELSE ~Inside(n, c.i.v)) THEN Bad
        ELSE IF "dst" \in DOMAIN c /\ c.x.dims > 0 THEN TRUE       \* elements with dimensions into a destination: not said
        ELSE IF "dst" \in DOMAIN c /\ c.dst # t THEN Bad
        ELSE Ok /\ r.t = t /\ Len(r.v) = Len(want) /\ \A k \in DOMAIN want : ToString(r.v[k]) = ToString(want[k])
  /\ r.same = 1
RECURSIVE DimText(_, _)
DimText(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o " * " \o DimText(s, i + 1)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
EvOuter ==
  /\ ev.a = "outer" /\ r.e # "CRASH"
  /\ LET t == DimText(Cat([i \in DOMAIN c.args |-> c.args[i].s]), 1) \o "int32"
         want == Outer([i \in DOMAIN c.args |-> c.args[i].v], [i \in DOMAIN c.args |-> Len(c.args[i].s)], 1)
     IN IF (\E i \in DOMAIN c.args : c.args[i].ok = 0) \/ ("dst" \in DOMAIN c /\ c.dst.tp # t) THEN Bad
        ELSE Ok /\ r.t = t /\ ToString(r.v) = ToString(want)
EvWhere ==
  /\ ev.a = "where" /\ r.e # "CRASH"
  /\ Ok /\ LET want == Places11(c.x.v, 1) IN
     (want = <<>> /\ ToString(r.v) = ToString(<<"null">>)) \/ (Len(r.v) = Len(want) /\ \A k \in DOMAIN want : ToString(r.v[k]) = ToString(<<want[k]>>))
EvConstant ==
  /\ ev.a = "constant" /\ r.e # "CRASH"
  /\ Ok /\ r.t = c.x.tp /\ ToString(r.v) = ToString(r.src) /\ r.same = 1
EvCompose ==
  /\ ev.a = "compose" /\ r.e # "CRASH"
  /\ LET F(x) == Chain(c.tree, x) IN
     IF c.elw = 0 /\ Len(c.x.s) > 0 THEN Bad
     ELSE Ok /\ r.t = DimText(c.x.s, 1) \o "int32" /\ r.v = MapD(F, c.x.v, Len(c.x.s))
EvAccumulate ==
  /\ ev.a = "accumulate" /\ r.e # "CRASH"
  /\ LET F(x, y) == IF c.side = "left" THEN Fun(<<x, y>>) ELSE Fun(<<y, x>>) IN
     IF c.elw = 0 /\ Len(c.x.s) > 0 THEN Bad /\ r.v = c.d.v
     ELSE Ok /\ r.v = Zip(F, c.d.v, c.x.v, Len(c.d.s))
Init == l = 1
Next == l <= Len(TraceLog) /\ (EvRange \/ EvLinspace \/ EvLimits \/ EvTake \/ EvOuter \/ EvWhere \/ EvConstant \/ EvCompose \/ EvAccumulate) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
