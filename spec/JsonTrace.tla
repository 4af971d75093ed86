----------------------------- MODULE JsonTrace ------------------------------
(* Accepts recorded readings of JSON texts into typed memory exactly when the*)
(* memory holds what the text denotes for the type, or an error was raised   *)
(* because the text is no JSON or denotes no value of the type; and recorded *)
(* writings exactly when the text written denotes the value written.         *)
EXTENDS DyndJson, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
Mode == IF c.way = "callable" THEN "callable" ELSE IF c.mode = "none" THEN "fractional" ELSE c.mode
RECURSIVE HasTup(_), SameTree(_, _, _)
HasTup(t) == t.k = "tup" \/ (t.k = "rec" /\ \E i \in DOMAIN t.fs : HasTup(t.fs[i])) \/ (t.k \in {"fix", "var", "opt"} /\ HasTup(t.of))
SameTree(t, a, b) ==
  CASE t.k = "opt" -> IF t.of.k # "num" THEN TRUE ELSE IF a.k = "na" \/ b.k = "na" THEN a.k = b.k ELSE SameTree(t.of, a, b)
    [] t.k = "num" -> SameValue(Decode(Types[t.n], a.b), Decode(Types[t.n], b.b))
    [] t.k \in {"str", "fstr"} -> a.b = b.b
    [] t.k \in {"fix", "var"} -> Len(a.xs) = Len(b.xs) /\ \A i \in DOMAIN a.xs : SameTree(t.of, a.xs[i], b.xs[i])
    [] t.k \in {"rec", "tup"} -> \A i \in DOMAIN t.fs : SameTree(t.fs[i], a.xs[i], b.xs[i])
Written(f, v2, aslist) ==      \* the text f was written for the value r.v, and read back as v2
  LET d == Document(f) IN
  /\ d.ok /\ ~Open(d.v)
  /\ Form(c.t, d.v, r.v, aslist)
  /\ JErr(c.t, d.v, "fractional") # "yes" /\ JGood(c.t, d.v, r.v, "fractional")
  /\ SameTree(c.t, r.v, v2)
EvJson ==
  /\ ev.a = "json" /\ r.e # "CRASH"
  /\ LET d == Document(c.text)
         err == IF Open(d.v) THEN "may" ELSE JErr(c.t, d.v, Mode)
         \* nd::json::parse takes the words for NA, the empty one too, unquoted
         free == Lenient(c.text) \/ (Mode = "callable" /\ (\E i \in DOMAIN c.text : c.text[i] \in {78, 110}))
                 \/ (Mode = "callable" /\ c.t.k = "opt" /\ \A i \in DOMAIN c.text : c.text[i] \in {9, 10, 13, 32}) IN
     IF ~d.ok THEN r.e # "" \/ free
     ELSE IF r.e # "" THEN err # "no"
     ELSE /\ err # "yes"
          /\ JGood(c.t, d.v, r.v, Mode)
          /\ IF HasTup(c.t) /\ r.fe = "refused" THEN TRUE ELSE r.fe = "" /\ Written(r.f0, r.v0, FALSE) /\ Written(r.f1, r.v1, TRUE)
EvValid ==
  /\ ev.a = "jvalid" /\ r.e # "CRASH"
  /\ LET d == Document(c.text) IN
     IF ~d.ok THEN r.e # "" \/ Lenient(c.text)
     ELSE r.e = "" \/ Open(d.v)
Init == l = 1
Next == l <= Len(TraceLog) /\ (IF ev.a = "json" THEN EvJson ELSE EvValid) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
