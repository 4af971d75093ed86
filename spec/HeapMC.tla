------------------------------- MODULE HeapMC -------------------------------
(* Bounded instance of DyndHeap: every history of at most Depth public calls *)
(* over a few types, up to MaxH live handles and MaxB blocks.                *)
(* Run breadth-first it checks the invariants and step properties; run in    *)
(* simulation mode it prints command histories to be replayed in the code.   *)
EXTENDS DyndHeap, Json
CONSTANTS Depth, MaxH, MaxB
VARIABLES hist
vars == <<heapVars, hist>>

Leaf(t) == [k |-> "leaf", t |-> t]
Dim(n, el) == [k |-> "dim", n |-> n, el |-> el]
Types == { <<"2 * 3 * int32", Dim(2, Dim(3, Leaf("int32"))), <<<<1, 2, 3>>, <<4, 5, 6>>>>>>,
           <<"3 * int16", Dim(3, Leaf("int16")), <<7, 8, 9>>>>,
           <<"int64", Leaf("int64"), 21>>,
           <<"2 * {x: int8, y: 2 * float64}",
             Dim(2, [k |-> "struct", f |-> <<[n |-> "x", t |-> Leaf("int8")], [n |-> "y", t |-> Dim(2, Leaf("float64"))]>>]),
             <<<<10, <<11, 12>>>>, <<13, <<14, 15>>>>>>>> }
Exts == { <<<<2, 2>>, <<2, 1>>, 0>>, <<<<3>>, <<-2>>, 5>>, <<<<2, 3>>, <<0, 1>>, 1>>, <<<<2, 2, 2>>, <<1, 2, 0>>, 0>> }
Names == <<"a", "b", "c", "d">>
Free == {i \in 1..MaxH : Names[i] \notin DOMAIN hs}
NewName == Names[CHOOSE i \in Free : \A j \in Free : i <= j]
CanBind == Free # {}
CanAlloc == CanBind /\ nb < MaxB

Rg(a, b, s, am, bm) == [k |-> "r", a |-> a, b |-> b, s |-> s, am |-> am, bm |-> bm]
Ix(i) == [k |-> "i", i |-> i]
Idx == {Ix(0), Ix(-1), Ix(2), Rg(0, 0, 1, 1, 1), Rg(0, 0, -1, 1, 1), Rg(1, 0, 1, 0, 1), Rg(0, -1, 1, 0, 0), Rg(0, 0, 2, 1, 1)}
IxLists == {<<i>> : i \in Idx} \cup {<<i, j>> : i \in Idx, j \in {Ix(1), Rg(0, 0, 1, 1, 1), Rg(-1, 0, -1, 0, 1)}}

Log(cmd) == hist' = Append(hist, cmd)
OverlapFree(x, o, T, y) ==
  /\ NoSelfOverlap(T)
  /\ \/ hs[x].b # hs[y].b
     \/ Range(Leaves(T, o)) \cap CellsOf(hs[y]) = {}
     \/ (hs[x].b = hs[y].b /\ SameView(T, o, hs[y].T, hs[y].o))
Scalarish(T) == DType(T).k = "leaf"
SameD(T, S) == IF Scalarish(T) THEN Scalarish(S) ELSE Skel(DType(T)) = Skel(DType(S))

ANew == CanAlloc /\ \E t \in Types, fl \in {1, 3} :
  New(NewName, t[2], t[3], fl) /\ Log([a |-> "new", r |-> NewName, tp |-> t[1], ty |-> t[2], v |-> t[3], fl |-> fl])
AExt == CanAlloc /\ \E t \in Exts, fl \in {1, 3} :
  NewExt(NewName, "int32", [i \in 1..8 |-> 30 + i], t[1], t[2], t[3], fl)
  /\ Log([a |-> "newext", r |-> NewName, tp |-> "int32", v |-> [i \in 1..8 |-> 30 + i], sh |-> t[1], st |-> t[2], off |-> t[3], fl |-> fl])
ACopy == CanAlloc /\ \E x \in DOMAIN hs, fl \in {0, 1, 3} :
  Copy(NewName, x, Layout(Skel(hs[x].T)), 0, EvalCopyFlags(fl)) /\ Log([a |-> "evalcopy", r |-> NewName, x |-> x, fl |-> fl])
AAt == CanBind /\ \E x \in DOMAIN hs, ix \in IxLists :
  /\ AtOk(x, ix) /\ At(NewName, x, ix) /\ Log([a |-> "at", r |-> NewName, x |-> x, ix |-> ix])
AAtBad == Len(hist) > 0 /\ hist[Len(hist)].a # "at" /\ CanBind /\ \E x \in DOMAIN hs, ix \in {<<Ix(7)>>, <<Ix(0), Rg(9, 0, 1, 0, 1)>>} :
  /\ ~AtOk(x, ix) /\ UNCHANGED heapVars /\ Log([a |-> "at", r |-> NewName, x |-> x, ix |-> ix])
AField == CanBind /\ \E x \in DOMAIN hs, n \in {"x", "y"} :
  FieldOf(hs[x].T, n) # <<>> /\ Field(NewName, x, n) /\ Log([a |-> "field", r |-> NewName, x |-> x, n |-> n])
APermute == CanBind /\ \E x \in DOMAIN hs, ax \in {<<1, 0>>, <<1, 2, 0>>} :
  PermuteOk(x, ax) /\ Permute(NewName, x, ax) /\ Log([a |-> "permute", r |-> NewName, x |-> x, ax |-> ax])
ANewAxis == CanBind /\ \E x \in DOMAIN hs, i \in {0, 1} :
  NDim(hs[x].T) \in i..2 /\ NewAxis(NewName, x, i, 1) /\ Log([a |-> "newaxis", r |-> NewName, x |-> x, i |-> i, n |-> 1])
ADrop == \E x \in DOMAIN hs : Drop(x) /\ Log([a |-> "drop", x |-> x])
AAssign == \E x \in DOMAIN hs, y \in DOMAIN hs :
  /\ x # y /\ OverlapFree(x, hs[x].o, hs[x].T, y) /\ SameD(hs[x].T, hs[y].T)
  /\ Log([a |-> "assign", x |-> x, y |-> y])
  /\ IF AssignOk(x, hs[y].T) THEN Assign(x, hs[y].T, ValueOf(hs[y], blocks)) ELSE UNCHANGED heapVars
AValsAt == \E x \in DOMAIN hs, y \in DOMAIN hs, ix \in {<<Ix(1)>>, <<Rg(0, 0, -1, 1, 1), Ix(0)>>} :
  /\ x # y /\ AtOk(x, ix)
  /\ LET q == Index(hs[x].T, ix) IN
     /\ OverlapFree(x, hs[x].o + q[1], q[2], y) /\ SameD(q[2], hs[y].T)
     /\ Log([a |-> "valsat", x |-> x, y |-> y, ix |-> ix])
     /\ IF CanWrite(hs[x].fl) /\ BroadcastOk(q[2], hs[y].T)
        THEN AssignAt(x, ix, hs[y].T, ValueOf(hs[y], blocks)) ELSE UNCHANGED heapVars
ASet == \E x \in DOMAIN hs :
  /\ NoSelfOverlap(hs[x].T) /\ Scalarish(hs[x].T)
  /\ Log([a |-> "setnum", x |-> x, v |-> 50 + Len(hist)])
  /\ IF CanWrite(hs[x].fl) THEN Assign(x, Leaf("int32"), 50 + Len(hist)) ELSE UNCHANGED heapVars
ADup == CanBind /\ \E x \in DOMAIN hs : Dup(NewName, x) /\ Log([a |-> "dup", r |-> NewName, x |-> x])

Init == HeapInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ ANew \/ AExt \/ ACopy \/ AAt \/ AAtBad \/ AField \/ APermute \/ ANewAxis \/ ADrop \/ AAssign \/ AValsAt \/ ASet \/ ADup
Spec == Init /\ [][Next]_vars

(* A store changes cells of its destination only, and only if that handle may write *)
StepSafe == [][
  \A b \in DOMAIN blocks \cap DOMAIN blocks' :
    blocks[b].m # blocks'[b].m =>
      LET cmd == hist'[Len(hist')] IN
      /\ cmd.a \in {"assign", "valsat", "setnum"}
      /\ hs[cmd.x].b = b /\ CanWrite(hs[cmd.x].fl)
      /\ \A o \in DOMAIN blocks[b].m : blocks[b].m[o] # blocks'[b].m[o] => o \in CellsOf(hs[cmd.x])]_vars
(* permissions are never gained *)
NoEscalation == [][
  \A x \in DOMAIN hs' \ DOMAIN hs :
    (\E y \in DOMAIN hs : hs[y].b = hs'[x].b) =>
      (CanWrite(hs'[x].fl) => \E y \in DOMAIN hs : hs[y].b = hs'[x].b /\ CanWrite(hs[y].fl))]_vars
(* storage is released exactly when its last handle goes *)
ReleaseRight == [][
  \A b \in DOMAIN blocks : b \notin DOMAIN blocks' <=> ~\E x \in DOMAIN hs' : hs'[x].b = b]_vars
StateView == <<heapVars, Len(hist)>>
(* simulation: print each completed history *)
Emit == Len(hist) < Depth \/ PrintT("GEN " \o ToJson(hist))
=============================================================================
