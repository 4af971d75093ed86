----------------------------- MODULE StringTrace ----------------------------
(* Accepts recorded histories of string objects, calls of the string         *)
(* functions and assignments between texts of any encoding exactly when they *)
(* are what DyndString says.                                                 *)
EXTENDS DyndString, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r

(* ---- a history of operations on the objects a and b *)
Piece(s, op) == SubSeq(s, op.i + 1, op.i + op.n)
Do(m, op) ==
  LET o == op.o IN
  CASE op.op \in {"assign", "construct"} -> [m EXCEPT ![o] = op.s]
    [] op.op = "append" -> [m EXCEPT ![o] = m[o] \o op.s]
    [] op.op = "resize" -> [m EXCEPT ![o] = IF Len(op.s) <= Len(m[o]) THEN SubSeq(m[o], 1, Len(op.s))
                                           ELSE m[o] \o SubSeq(op.s, Len(m[o]) + 1, Len(op.s))]
    [] op.op = "reserve" -> m
    [] op.op \in {"copy", "recopy"} -> [m EXCEPT ![o] = m[op.p]]
    [] op.op = "part" -> [m EXCEPT ![o] = Piece(m[op.p], op)]
    [] op.op = "addpart" -> [m EXCEPT ![o] = m[o] \o Piece(m[op.p], op)]
    [] op.op = "add" -> [m EXCEPT ![o] = m[o] \o m[op.p]]
    [] op.op = "plus" -> [m EXCEPT ![o] = m[op.p] \o m[op.q]]
    [] op.op = "move" -> IF op.p = o THEN m ELSE [m EXCEPT ![o] = m[op.p], ![op.p] = <<>>]
    [] op.op = "clear" -> [m EXCEPT ![o] = <<>>]
RECURSIVE Held(_, _)
Held(m, k) == IF k > Len(c.ops) THEN TRUE
              ELSE LET n == Do(m, c.ops[k]) IN
                   /\ r.st[k] = <<<<n.a, 1>>, <<n.b, 1>>, IF n.a = n.b THEN 1 ELSE 0, 1>>
                   /\ Held(n, k + 1)
EvValue == ev.a = "value" /\ r.e = "" /\ Len(r.st) = Len(c.ops) /\ Held([a |-> <<>>, b |-> <<>>], 1)

(* ---- assignment between texts *)
Src(u) == IF c.se = "string" THEN Decode("utf8", u) ELSE Decode(c.se, UpToZero(u))
DEnc == IF c.de = "string" THEN "utf8" ELSE c.de
PadTo(u, n) == u \o [i \in 1..(n - Len(u)) |-> 0]
RECURSIVE Fit(_, _)
(* as many whole code points as fit *)
Fit(t, n) == IF t = <<>> \/ Len(EncOne(DEnc, t[1])) > n THEN <<>> ELSE EncOne(DEnc, t[1]) \o Fit(Tail(t), n - Len(EncOne(DEnc, t[1])))
NoCheck == c.mode = "nocheck"
Plain == c.se = "string" /\ c.de = "string"     \* the same representation: bytes are kept
Fails(u) == LET t == Src(u) IN
  IF Plain THEN "no"
  ELSE IF t = Bad \/ ~CanEncode(DEnc, t) THEN IF NoCheck \/ (t = Bad /\ c.stp = c.dtp) THEN "may" ELSE "yes"
  ELSE IF c.de # "string" /\ Len(Encode(DEnc, t)) > c.dn THEN IF NoCheck THEN "no" ELSE "yes"
  ELSE "no"
Stored(u, d) == LET t == Src(u) IN
  IF Plain THEN d = u
  ELSE IF t = Bad \/ ~CanEncode(DEnc, t) THEN (c.de # "string" => Len(d) = c.dn)
  ELSE IF c.de = "string" THEN d = Encode("utf8", t)
  ELSE d = PadTo(Fit(t, c.dn), c.dn)
EvTrans ==
  /\ ev.a = "trans" /\ r.e # "CRASH"
  /\ IF \E i \in DOMAIN c.v : Fails(c.v[i]) = "yes" THEN r.e # ""
     ELSE IF r.e # "" THEN \E i \in DOMAIN c.v : Fails(c.v[i]) = "may"
     ELSE r.s = c.v /\ Len(r.v) = Len(c.v) /\ \A i \in DOMAIN c.v : Stored(c.v[i], r.v[i])

(* ---- elements of an array assigned to each other *)
RECURSIVE Moved(_, _)
Moved(v, k) == IF k > Len(c.moves) THEN v
               ELSE Moved(IF c.moves[k][1] = 0 THEN v ELSE [v EXCEPT ![c.moves[k][1]] = v[c.moves[k][2]]], k + 1)
EvSelf == ev.a = "selfassign" /\ r.e = "" /\ r.v = Moved(c.v, 1)

(* ---- the functions, elementwise over arrays and single texts *)
Arg(a, i) == c.args[a][IF c.scalar[a] = 1 THEN 1 ELSE i]
B(x) == IF x THEN 1 ELSE 0
F(i) == CASE c.f = "concat" -> Arg(1, i) \o Arg(2, i)
          [] c.f = "count" -> Count(Arg(1, i), Arg(2, i))
          [] c.f = "find" -> Find(Arg(1, i), Arg(2, i))
          [] c.f = "rfind" -> RFind(Arg(1, i), Arg(2, i))
          [] c.f = "replace" -> Replace(Arg(1, i), Arg(2, i), Arg(3, i))
          [] c.f = "split" -> Split(Arg(1, i), Arg(2, i))
          [] c.f = "startswith" -> B(StartsWith(Arg(1, i), Arg(2, i)))
          [] c.f = "endswith" -> B(EndsWith(Arg(1, i), Arg(2, i)))
          [] c.f = "contains" -> B(Contains(Arg(1, i), Arg(2, i)))
(* what finding or counting nothing means is left open *)
Open(i) == c.f \in {"count", "find", "rfind", "contains"} /\ Arg(2, i) = <<>>
N == IF \A a \in DOMAIN c.args : c.scalar[a] = 1 THEN c.rn ELSE Len(c.args[CHOOSE a \in DOMAIN c.args : c.scalar[a] = 0])
EvFn == ev.a = "sfn" /\ r.e = "" /\ r["in"] = c.args /\ Len(r.v) = N /\ \A i \in 1..N : Open(i) \/ r.v[i] = F(i)

Init == l = 1
Next == l <= Len(TraceLog) /\ (EvValue \/ EvTrans \/ EvSelf \/ EvFn) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
