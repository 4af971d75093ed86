------------------------------ MODULE BlockTrace ----------------------------
(* Accepts recorded histories of memory blocks, and of arrays of objects,    *)
(* exactly when they are what DyndBlock says.                                *)
EXTENDS DyndBlock, FiniteSets, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* every destroyed element shows once for each object in it *)
Bag(seen, gone, leaves) == Len(seen) = leaves * Len(gone) /\ \A i \in DOMAIN gone : Count(seen, gone[i]) = leaves * Count(gone, gone[i])
Meets(cells, seen) == Len(cells) = Len(seen) /\ \A i \in DOMAIN cells : cells[i] = Unknown \/ cells[i] = seen[i] \/ c.empty = 1
Look(regs, o) ==
  /\ Len(o.regs) = Len(regs)
  /\ \A i \in DOMAIN regs : LET x == o.regs[i] IN
       /\ Meets(regs[i], x.v)
       /\ x.own = 1
       /\ (Len(regs[i]) > 0 => x.al = 0)
  /\ c.empty = 1 \/ \A i, j \in DOMAIN regs : i < j /\ Len(regs[i]) > 0 /\ Len(regs[j]) > 0 => o.regs[i].e <= o.regs[j].b \/ o.regs[j].e <= o.regs[i].b
RECURSIVE Held(_, _)
Held(regs, k) == IF k > Len(c.ops) THEN TRUE
                 ELSE LET n == After(c.kind, regs, c.ops[k]) IN
                      /\ Look(n, r.st[k])
                      /\ Bag(r.st[k].gone, Gone(c.kind, regs, c.ops[k]), c.leaves)
                      /\ Held(n, k + 1)
EvBlocks == ev.a = "blocks" /\ r.e = "" /\ r.kind = c.kind /\ r.left = 0 /\ Len(r.st) = Len(c.ops) /\ Held(<<>>, 1)

(* ---- arrays of objects: references by index, 0 when dropped *)
RECURSIVE Dies(_, _, _, _)
Dies(live, val, done, k) ==
  IF k > Len(c.ops) THEN Bag(r.end, IF done THEN <<>> ELSE <<val>>, c.leaves)
  ELSE LET o == c.ops[k]
           lv == CASE o.op = "drop" -> live \ {o.i} [] o.op = "fill" -> live [] OTHER -> live \cup {o.n}
           v == IF o.op = "fill" THEN o.v ELSE val
           dies == lv = {} /\ ~done IN
       /\ Bag(r.st[k], IF dies THEN <<v>> ELSE <<>>, c.leaves)
       /\ Dies(lv, v, done \/ dies, k + 1)
EvObjects == ev.a = "objects" /\ r.e = "" /\ Len(r.st) = Len(c.ops) /\ Dies({1}, 0, FALSE, 1)

Init == l = 1
Next == l <= Len(TraceLog) /\ (EvBlocks \/ EvObjects) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
