------------------------------ MODULE SearchMC ------------------------------
(* Bisection in an ordered list, one probe at a time, and sorting by         *)
(* exchanges, on every small list: what they end with does not depend on the *)
(* way there.  Every list is a case to replay.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Vals
VARIABLES part, list, v, first, last, ans, start

Lists == UNION {[1..n -> Vals] : n \in 0..MaxLen}
IsOrdered(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Init == \/ part = "search" /\ list \in {s \in Lists : IsOrdered(s)} /\ v \in Vals \cup {0}
           /\ first = 0 /\ last = Len(list) /\ ans = -2 /\ start = list
        \/ part = "sort" /\ list \in Lists /\ v = 0 /\ first = 0 /\ last = 0 /\ ans = 0 /\ start = list
Probe == /\ part = "search" /\ ans = -2
         /\ IF first >= last THEN ans' = -1 /\ UNCHANGED <<first, last>>
            ELSE LET t == first + (last - first) \div 2 IN
                 IF v < list[t + 1] THEN last' = t /\ UNCHANGED <<first, ans>>
                 ELSE IF list[t + 1] < v THEN first' = t + 1 /\ UNCHANGED <<last, ans>>
                 ELSE ans' = t /\ UNCHANGED <<first, last>>
         /\ UNCHANGED <<part, list, v, start>>
(* any exchange of two elements in the wrong order *)
Exchange == /\ part = "sort"
            /\ \E i, j \in DOMAIN list : i < j /\ list[j] < list[i] /\ list' = [list EXCEPT ![i] = list[j], ![j] = list[i]]
            /\ UNCHANGED <<part, v, first, last, ans, start>>
Next == Probe \/ Exchange
Spec == Init /\ [][Next]_<<part, list, v, first, last, ans, start>> /\ WF_<<part, list, v, first, last, ans, start>>(Next)
Within == part = "search" /\ ans = -2 => \A i \in DOMAIN list : list[i] = v => i - 1 \in first..(last - 1)
Answer == part = "search" /\ ans # -2 => IF ans = -1 THEN \A i \in DOMAIN list : list[i] # v ELSE list[ans + 1] = v
Count(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})
SameElements == part = "sort" => \A e \in Vals : Count(list, e) = Count(start, e)
Done == part = "sort" /\ ~ENABLED Exchange => IsOrdered(list)
OneResult == part = "sort" /\ ~ENABLED Exchange => \A s \in {t \in [DOMAIN list -> Vals] : IsOrdered(t)} : (\A e \in Vals : Count(s, e) = Count(start, e)) => s = list
Ends == <>[](IF part = "search" THEN ans # -2 ELSE IsOrdered(list))
Emit == (part = "search" /\ ans = -2 /\ first = 0 /\ last = Len(list)) \/ (part = "sort" /\ list = start) =>
          PrintT("GEN " \o ToJson([k |-> part, l |-> start, v |-> v]))
=============================================================================
