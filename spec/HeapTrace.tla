------------------------------ MODULE HeapTrace -----------------------------
(* Accepts a recorded sequence of public calls exactly when every reported   *)
(* result, and everything observable afterwards, is what DyndHeap allows.    *)
EXTENDS DyndHeap, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live
vars == <<heapVars, l, live>>

ev == TraceLog[l]
c == ev.c
r == ev.r
IsE(a) == l <= Len(TraceLog) /\ ev.a = a
Done == l' = l + 1
Refused == r.e # "" /\ r.e # "CRASH"
Ok == r.e = ""

(* the driver's report about the handle just bound agrees with the model *)
Agrees(n) ==
  LET h == hs'[n] IN
  /\ r.b = h.b /\ r.fl = h.fl
  /\ SameView(h.T, h.o, r.T, r.o)
  /\ r.v = Read(h.T, h.o, blocks'[h.b].m)

(* everything visible after a call: all handles' values, released blocks and *)
(* the raw cells of external storage                                         *)
Visible ==
  /\ DOMAIN r.H = DOMAIN hs'
  /\ \A x \in DOMAIN hs' : r.H[x] = ValueOf(hs'[x], blocks')
  /\ Len(r.F) = Cardinality(freed') /\ Range(r.F) = freed'
  /\ {r.X[i].b : i \in DOMAIN r.X} = {b \in DOMAIN blocks' : blocks'[b].ext}
  /\ \A i \in DOMAIN r.X : /\ r.X[i].g = 1
                           /\ LET m == blocks'[r.X[i].b].m z == blocks'[r.X[i].b].isz IN
                              \A j \in DOMAIN r.X[i].c : r.X[i].c[j] = m[(j - 1) * z]

Fresh(n) == n \notin DOMAIN hs
Have(n) == n \in DOMAIN hs
Fail == Refused /\ UNCHANGED heapVars

EvReset == IsE("reset") /\ Done /\ Ok /\ blocks' = NoFun /\ hs' = NoFun /\ freed' = {} /\ nb' = 0 /\ live' = live
(* with no handle left, memory use must be back to where it was *)
EvLive == IsE("live") /\ Done /\ Ok /\ UNCHANGED heapVars /\ hs = NoFun
          /\ (c.first = 1 \/ r.n <= live) /\ live' = r.n
Keep == Done /\ live' = live

EvObs == IsE("obs") /\ Keep /\ Ok /\ UNCHANGED heapVars /\ Visible
EvNew == IsE("new") /\ Keep /\ Ok /\ Fresh(c.r) /\ New(c.r, c.ty, c.v, c.fl) /\ Agrees(c.r)
EvNewExt == IsE("newext") /\ Keep /\ Ok /\ Fresh(c.r) /\ NewExt(c.r, c.tp, c.v, c.sh, c.st, c.off, c.fl) /\ Agrees(c.r)
EvDup == IsE("dup") /\ Keep /\ Ok /\ Fresh(c.r) /\ Dup(c.r, c.x) /\ Agrees(c.r)
EvDrop == IsE("drop") /\ Keep /\ Ok /\ Drop(c.x) /\ Visible
EvAt == IsE("at") /\ Keep /\ Fresh(c.r) /\
  IF AtOk(c.x, c.ix) THEN Ok /\ At(c.r, c.x, c.ix) /\ Agrees(c.r) ELSE Fail
EvField == IsE("field") /\ Keep /\ Fresh(c.r) /\
  IF FieldOf(hs[c.x].T, c.n) # <<>> THEN Ok /\ Field(c.r, c.x, c.n) /\ Agrees(c.r) ELSE Fail
EvPermute == IsE("permute") /\ Keep /\ Fresh(c.r) /\
  IF PermuteOk(c.x, c.ax) THEN Ok /\ Permute(c.r, c.x, c.ax) /\ Agrees(c.r) ELSE Fail
EvTranspose == IsE("transpose") /\ Keep /\ Fresh(c.r) /\ Ok /\ Transpose(c.r, c.x) /\ Agrees(c.r)
EvRotate == IsE("rotate") /\ Keep /\ Fresh(c.r) /\ Ok /\ Rotate(c.r, c.x, c.to, c.from) /\ Agrees(c.r)
EvNewAxis == IsE("newaxis") /\ Keep /\ Fresh(c.r) /\ Ok /\ NewAxis(c.r, c.x, c.i, c.n) /\ Agrees(c.r)
EvReshape == IsE("reshape") /\ Keep /\ Fresh(c.r) /\
  IF ReshapeOk(c.x, c.sh) THEN Ok /\ Reshape(c.r, c.x, c.sh) /\ Agrees(c.r) ELSE Fail
EvViewAs == (IsE("viewas") \/ IsE("viewscalars")) /\ Keep /\ Fresh(c.r) /\
  IF ViewAsOk(c.x, c.t) THEN Ok /\ ViewAs(c.r, c.x, c.t) /\ Agrees(c.r) ELSE Fail
EvStorage == IsE("storage") /\ Keep /\ Fresh(c.r) /\ Ok /\ Storage(c.r, c.x) /\ Agrees(c.r)
(* a new record holding copies of several arrays *)
EvPack == IsE("pack") /\ Keep /\ Fresh(c.r) /\ Ok /\
  LET T == IF c.n = <<>>
           THEN [k |-> "tuple", f |-> [i \in 1..Len(c.xs) |-> [t |-> Skel(hs[c.xs[i]].T)]]]
           ELSE [k |-> "struct", f |-> [i \in 1..Len(c.xs) |-> [n |-> c.n[i], t |-> Skel(hs[c.xs[i]].T)]]]
  IN FreshWith(c.r, Layout(T), 0, [i \in 1..Len(c.xs) |-> ValueOf(hs[c.xs[i]], blocks)], 3) /\ Agrees(c.r)
EvEval == IsE("eval") /\ Keep /\ Fresh(c.r) /\ Ok /\ Dup(c.r, c.x) /\ Agrees(c.r)
EvEvalCopy == IsE("evalcopy") /\ Keep /\ Fresh(c.r) /\ Ok /\ FreshLike(r.T, hs[c.x].T)
  /\ Copy(c.r, c.x, r.T, r.o, EvalCopyFlags(c.fl)) /\ Agrees(c.r)
EvToHost == IsE("tohost") /\ Keep /\ Fresh(c.r) /\ Ok /\ FreshLike(r.T, hs[c.x].T)
  /\ Copy(c.r, c.x, r.T, r.o, 3) /\ Agrees(c.r)
EvEmptyLike == IsE("emptylike") /\ Keep /\ Fresh(c.r) /\ Ok /\ FreshLike(r.T, hs[c.x].T)
  /\ FreshWith(c.r, r.T, r.o, c.v, 3) /\ Agrees(c.r)
EvAssign == (IsE("assign") \/ IsE("vals")) /\ Keep /\
  IF AssignOk(c.x, hs[c.y].T)
  THEN Ok /\ Assign(c.x, hs[c.y].T, ValueOf(hs[c.y], blocks)) /\ Visible
  ELSE Fail
EvValsAt == IsE("valsat") /\ Keep /\
  IF /\ AtOk(c.x, c.ix) /\ CanWrite(hs[c.x].fl)
     /\ BroadcastOk(Index(hs[c.x].T, c.ix)[2], hs[c.y].T)
  THEN Ok /\ AssignAt(c.x, c.ix, hs[c.y].T, ValueOf(hs[c.y], blocks)) /\ Visible
  ELSE Fail
EvSetNum == IsE("setnum") /\ Keep /\
  IF CanWrite(hs[c.x].fl)
  THEN Ok /\ Assign(c.x, [k |-> "leaf", t |-> "int32"], c.v) /\ Visible
  ELSE Fail
(* storing through the writable data pointer *)
EvPoke == IsE("poke") /\ Keep /\
  IF CanWrite(hs[c.x].fl)
  THEN Ok /\ StoreTo(c.x, hs[c.x].o, hs[c.x].T, c.v) /\ Visible
  ELSE Fail
ConcatOk(x, y) == /\ NDim(hs[x].T) = 1 /\ NDim(hs[y].T) = 1 /\ DType(hs[x].T) = DType(hs[y].T)
EvConcat == IsE("concat") /\ Keep /\ Fresh(c.r) /\
  IF ConcatOk(c.x, c.y)
  THEN LET T == Layout([k |-> "dim", n |-> hs[c.x].T.n + hs[c.y].T.n, el |-> DType(hs[c.x].T)]) IN
       Ok /\ FreshWith(c.r, T, 0, ValueOf(hs[c.x], blocks) \o ValueOf(hs[c.y], blocks), 3) /\ Agrees(c.r)
  ELSE Fail
EvEquals == IsE("equalsexact") /\ Keep /\ Ok /\ UNCHANGED heapVars /\
  (r.q = 1) = (Skel(hs[c.x].T) = Skel(hs[c.y].T) /\ ValueOf(hs[c.x], blocks) = ValueOf(hs[c.y], blocks))

Init == HeapInit /\ l = 1 /\ live = 0
Next == EvReset \/ EvLive \/ EvObs \/ EvNew \/ EvNewExt \/ EvDup \/ EvDrop \/ EvAt \/ EvField \/ EvPermute
        \/ EvTranspose \/ EvRotate \/ EvNewAxis \/ EvReshape \/ EvEval \/ EvEvalCopy \/ EvToHost \/ EvEmptyLike
        \/ EvAssign \/ EvValsAt \/ EvSetNum \/ EvPoke \/ EvConcat \/ EvEquals
        \/ EvViewAs \/ EvStorage \/ EvPack
Spec == Init /\ [][Next]_vars

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
