----------------------------- MODULE DyndThread -----------------------------
(* References to one object held by several threads.  A thread runs a program *)
(* of steps; each step changes the number of references by one indivisible    *)
(* action, and the object is destroyed by the action that takes the last one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* steps of a program: copy a reference, view the object through a new one,   *)
(* release one, ask how many there are, use the object, copy-and-release      *)
Delta(x) == CASE x = "c" -> 1 [] x = "v" -> 1 [] x = "r" -> -1 [] OTHER -> 0
RECURSIVE Refs(_, _)
Refs(p, i) == IF i = 0 THEN 1 ELSE Refs(p, i - 1) + Delta(p[i])   \* of a thread after i steps; it begins with one
(* a program may act only through references its thread holds *)
Sound(p) == \A i \in 1..Len(p) : Refs(p, i - 1) >= 1
RECURSIVE TotalOf(_)
TotalOf(ps) == IF ps = <<>> THEN 0 ELSE Refs(Head(ps), Len(Head(ps))) + TotalOf(Tail(ps))
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
(* how many references of thread k may exist at an instant; a use may take up *)
(* to `using` references while it lasts                                       *)
Possible(p, using) ==
  {Refs(p, i) : i \in 0..Len(p)} \cup {Refs(p, i - 1) + 1 : i \in {j \in 1..Len(p) : p[j] = "h"}}
  \cup {Refs(p, i - 1) + using : i \in {j \in 1..Len(p) : p[j] = "u"}}
RECURSIVE SumMin(_, _, _, _)
SumMin(ps, using, t, k) == IF k = 0 THEN 0 ELSE (IF k = t THEN 0 ELSE SetMin(Possible(ps[k], using))) + SumMin(ps, using, t, k - 1)
RECURSIVE SumMax(_, _, _, _)
SumMax(ps, using, t, k) == IF k = 0 THEN 0 ELSE (IF k = t THEN 0 ELSE SetMax(Possible(ps[k], using))) + SumMax(ps, using, t, k - 1)
(* what thread t may be told after its step i when the main thread keeps `keep` references *)
MayCount(ps, using, keep, t, i, n) ==
  LET own == Refs(ps[t], i) + keep
  IN own + SumMin(ps, using, t, Len(ps)) <= n /\ n <= own + SumMax(ps, using, t, Len(ps))
(* the answers of thread t: one number for each step that asks or uses *)
RECURSIVE Asked(_)
Asked(p) == IF p = <<>> THEN <<>> ELSE LET r == Asked(SubSeq(p, 1, Len(p) - 1)) IN IF p[Len(p)] \in {"n", "u"} THEN Append(r, Len(p)) ELSE r
=============================================================================
