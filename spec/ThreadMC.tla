------------------------------ MODULE ThreadMC ------------------------------
(* Every interleaving of every pair or triple of short programs over a shared *)
(* object.  Split = TRUE takes the count and the test apart, as code without  *)
(* an atomic count would: the invariants then fail.                           *)
EXTENDS DyndThread, Json
CONSTANTS NThreads, MaxLen, Steps, Split
VARIABLES ps, keep, pc, count, freed, reg, told
vars == <<ps, keep, pc, count, freed, reg, told>>
Programs == {p \in UNION {[1..n -> Steps] : n \in 0..MaxLen} : Sound(p)}
T == 1..NThreads
Sorted(f) == \A i \in 1..NThreads - 1 : Len(f[i]) >= Len(f[i + 1])
Init == /\ ps \in {f \in [T -> Programs] : Sorted(f)} /\ keep \in {0, 1}
        /\ pc = [t \in T |-> 0] /\ count = NThreads + keep /\ freed = 0 /\ reg = [t \in T |-> -1] /\ told = [t \in T |-> 0]
        /\ PrintT("GEN " \o ToJson([p |-> ps, keep |-> keep]))
Acts(t) == pc[t] < Len(ps[t])
X(t) == ps[t][pc[t] + 1]
Whole(t) ==
  /\ Acts(t) /\ ~(Split /\ Delta(X(t)) # 0)
  /\ count' = count + Delta(X(t))
  /\ freed' = freed + (IF X(t) = "r" /\ count' = 0 THEN 1 ELSE 0)
  /\ told' = [told EXCEPT ![t] = IF X(t) = "n" THEN count ELSE @]
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<ps, keep, reg>>
Load(t) == /\ Split /\ Acts(t) /\ Delta(X(t)) # 0 /\ reg[t] = -1
           /\ reg' = [reg EXCEPT ![t] = count] /\ UNCHANGED <<ps, keep, pc, count, freed, told>>
Store(t) == /\ Split /\ Acts(t) /\ reg[t] # -1
            /\ count' = reg[t] + Delta(X(t))
            /\ freed' = freed + (IF X(t) = "r" /\ count' = 0 THEN 1 ELSE 0)
            /\ reg' = [reg EXCEPT ![t] = -1] /\ pc' = [pc EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<ps, keep, told>>
Next == \E t \in T : Whole(t) \/ Load(t) \/ Store(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Held(_)
Held(k) == IF k = 0 THEN 0 ELSE Refs(ps[k], pc[k]) + Held(k - 1)
(* the count is the number of references, whatever the interleaving *)
CountIsHeld == count = keep + Held(NThreads)
(* the object is destroyed once, exactly when nobody refers to it *)
FreedOnce == freed = (IF keep + Held(NThreads) = 0 THEN 1 ELSE 0)
(* a thread that holds a reference may use the object *)
UsedAlive == \A t \in T : (Acts(t) /\ X(t) # "r") => freed = 0
(* what a thread is told is what DyndThread says it may be told *)
ToldPossible == \A t \in T : (pc[t] > 0 /\ ps[t][pc[t]] = "n" /\ told[t] # 0) => MayCount(ps, 0, keep, t, pc[t], told[t])
AtEnd == (\A t \in T : ~Acts(t)) => count = keep + TotalOf(ps)
=============================================================================
