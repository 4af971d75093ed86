------------------------------- MODULE IndexMC ------------------------------
(* Every index and range on a dimension of 0..MaxN elements.  Checks that    *)
(* the start/step/count arithmetic of Resolve selects exactly the elements   *)
(* Selected describes, in order, and prints each case for replay.            *)
EXTENDS DyndIndex, Json
CONSTANTS MaxN, Far, MaxStep
VARIABLES n, x
Steps == (-MaxStep..MaxStep) \ {0}
Starts(k) == {[a |-> a, am |-> 0] : a \in (-k - Far)..(k + Far)} \cup {[a |-> 0, am |-> 1]}
Init == /\ n \in 0..MaxN
        /\ x \in {[k |-> "i", i |-> i] : i \in (-n - Far)..(n + Far)} \cup
                 {[k |-> "r", a |-> p.a, am |-> p.am, b |-> q.a, bm |-> q.am, s |-> s] :
                    p \in Starts(n), q \in Starts(n), s \in Steps}
Next == UNCHANGED <<n, x>>
q == Resolve(x, n)
Right ==
  IF q.ok
  THEN LET L == [i \in 1..q.size |-> q.start + (i - 1) * q.step] IN
       /\ q.size >= 0
       /\ Range(L) = Selected(x, n) /\ Cardinality(Range(L)) = q.size
       /\ (q.one => q.size = 1)
  ELSE (* only an explicit index outside the dimension is refused *)
       IF x.k = "i" THEN Selected(x, n) = {}
       ELSE \/ (x.am = 0 /\ (x.a < -n \/ x.a >= n)) \/ (x.bm = 0 /\ (x.b < -n \/ x.b >= n))
Emit == PrintT("GEN " \o ToJson([n |-> n, x |-> x]))
=============================================================================
