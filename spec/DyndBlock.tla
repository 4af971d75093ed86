------------------------------ MODULE DyndBlock -----------------------------
(* Memory of variable-sized data: a block hands out regions of elements, the *)
(* newest one can be resized, everything can be thrown away at once, and     *)
(* objects are destroyed once, when their region stops covering them.        *)
(* A region is the sequence of its elements; Unknown is memory never written.*)
EXTENDS Integers, Sequences

Unknown == -1
Fresh(kind) == IF kind = "pod" THEN Unknown ELSE 0
NewCells(kind, n) == [i \in 1..n |-> Fresh(kind)]
Min2(a, b) == IF a < b THEN a ELSE b
Front2(s) == SubSeq(s, 1, Len(s) - 1)
Last2(s) == s[Len(s)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Resized(kind, cells, n) == SubSeq(cells, 1, Min2(n, Len(cells))) \o NewCells(kind, IF n > Len(cells) THEN n - Len(cells) ELSE 0)

(* regions after an operation *)
After(kind, regs, op) ==
  CASE op.op = "alloc" -> Append(regs, NewCells(kind, op.n))
    [] op.op = "resize" -> Append(Front2(regs), Resized(kind, Last2(regs), op.n))
    [] op.op = "fill" -> [regs EXCEPT ![op.i] = [j \in DOMAIN regs[op.i] |-> op.v + j - 1]]
    [] op.op = "release" -> regs
    [] op.op \in {"reset", "drop"} -> <<>>
(* objects destroyed by it; other memory needs nothing *)
Gone(kind, regs, op) ==
  IF kind # "object" THEN <<>>
  ELSE CASE op.op = "resize" -> LET x == Last2(regs) IN SubSeq(x, Min2(op.n, Len(x)) + 1, Len(x))
         [] op.op \in {"reset", "drop"} -> Cat(regs)
         [] OTHER -> <<>>
=============================================================================
