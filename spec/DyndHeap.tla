------------------------------ MODULE DyndHeap ------------------------------
(* Arrays, views and the memory blocks they share.                           *)
(*                                                                           *)
(* blocks: live memory blocks; each holds memory cells and knows whether its *)
(*         storage is external (released through a user callback).          *)
(* hs:     live array handles: block, byte offset, layout, access flags.     *)
(* freed:  external blocks whose callback has run.                           *)
(* nb:     number of blocks ever created (blocks are named in that order).   *)
EXTENDS DyndIndex

VARIABLES blocks, hs, freed, nb
heapVars == <<blocks, hs, freed, nb>>

NoFun == [x \in {} |-> 0]
HeapInit == blocks = NoFun /\ hs = NoFun /\ freed = {} /\ nb = 0

CanRead(fl) == fl % 2 = 1
CanWrite(fl) == (fl \div 2) % 2 = 1
IsImmutable(fl) == (fl \div 4) % 2 = 1

ValueOf(h, B) == Read(h.T, h.o, B[h.b].m)

(* Blocks nobody refers to are released at once. *)
Settle(H, B) ==
  LET used == {H[x].b : x \in DOMAIN H} IN
  /\ hs' = H
  /\ blocks' = [b \in DOMAIN B \cap used |-> B[b]]
  /\ freed' = freed \cup {b \in DOMAIN B \ used : B[b].ext}

Bind(r, h, B) == Settle([x \in DOMAIN hs \cup {r} |-> IF x = r THEN h ELSE hs[x]], B)

NewBlock(r, m, ext, isz, o, T, fl) ==
  /\ nb' = nb + 1
  /\ Bind(r, [b |-> nb + 1, o |-> o, T |-> T, fl |-> fl],
          [b \in DOMAIN blocks \cup {nb + 1} |->
             IF b = nb + 1 THEN [m |-> m, ext |-> ext, isz |-> isz] ELSE blocks[b]])

View(r, x, o, T, fl) ==
  nb' = nb /\ Bind(r, [b |-> hs[x].b, o |-> o, T |-> T, fl |-> fl], blocks)

(* ---- creation ---- *)
New(r, ty, v, fl) == LET T == Layout(ty) IN NewBlock(r, Fill(T, v), FALSE, 0, 0, T, fl)

(* external storage: cells v of one scalar type, strides in elements *)
ExtLayout(t, sh, st) ==
  FromDims([i \in 1..Len(sh) |-> [n |-> sh[i], s |-> st[i] * ScalarSize(t)]], [k |-> "leaf", t |-> t])
NewExt(r, t, v, sh, st, off, fl) ==
  LET z == ScalarSize(t) IN
  NewBlock(r, [x \in {(i - 1) * z : i \in 1..Len(v)} |-> v[(x \div z) + 1]], TRUE, z, off * z, ExtLayout(t, sh, st), fl)

(* a fresh array with the value of x; the order of its axes in memory is not *)
(* fixed, only that it is a layout of its own with the same shape            *)
FreshLike(T, S) == Skel(T) = Skel(S) /\ NoSelfOverlap(T)
Copy(r, x, T, o, fl) ==
  LET v == ValueOf(hs[x], blocks) L == Leaves(T, o) V == Flat(T, v) IN
  NewBlock(r, [c \in Range(L) |-> V[CHOOSE i \in DOMAIN L : L[i] = c]], FALSE, 0, o, T, fl)
FreshWith(r, T, o, v, fl) ==
  LET L == Leaves(T, o) V == Flat(T, v) IN
  NewBlock(r, [c \in Range(L) |-> V[CHOOSE i \in DOMAIN L : L[i] = c]], FALSE, 0, o, T, fl)
EvalCopyFlags(fl) == IF fl = 0 THEN 3 ELSE IF fl = 1 THEN 5 ELSE fl

(* ---- views ---- *)
Dup(r, x) == View(r, x, hs[x].o, hs[x].T, hs[x].fl)

AtOk(x, ix) == Index(hs[x].T, ix) # <<>>
At(r, x, ix) == LET q == Index(hs[x].T, ix) IN View(r, x, hs[x].o + q[1], q[2], hs[x].fl)

FieldIndex(T, name) == IF T.k # "struct" THEN {} ELSE {i \in 1..Len(T.f) : T.f[i].n = name}
(* field of a struct, possibly below dimensions *)
RECURSIVE FieldOf(_, _)
FieldOf(T, name) ==
  IF T.k = "dim" THEN LET q == FieldOf(T.el, name) IN
       IF q = <<>> THEN <<>> ELSE <<q[1], [k |-> "dim", n |-> T.n, s |-> T.s, el |-> q[2]]>>
  ELSE IF FieldIndex(T, name) = {} THEN <<>>
  ELSE LET i == CHOOSE i \in FieldIndex(T, name) : TRUE IN <<T.f[i].o, T.f[i].t>>
Field(r, x, name) == LET q == FieldOf(hs[x].T, name) IN View(r, x, hs[x].o + q[1], q[2], hs[x].fl)

IsPerm(ax, n) == Len(ax) = n /\ Range(ax) = 0..(n - 1)
PermuteOk(x, ax) == Len(ax) <= NDim(hs[x].T) /\ IsPerm(ax, Len(ax))
PermuteT(T, ax) ==
  LET d == Dims(T) IN
  FromDims([i \in 1..Len(d) |-> IF i <= Len(ax) THEN d[ax[i] + 1] ELSE d[i]], DType(T))
Permute(r, x, ax) == View(r, x, hs[x].o, PermuteT(hs[x].T, ax), hs[x].fl)
Transpose(r, x) == LET n == NDim(hs[x].T) IN Permute(r, x, [i \in 1..n |-> n - i])
RotateAxes(to, from) ==
  LET n == MaxOf(to, from) + 1 IN
  [i \in 1..n |-> LET j == i - 1 IN
     IF j = to THEN from
     ELSE IF from < to /\ j >= from /\ j < to THEN j + 1
     ELSE IF from > to /\ j > to /\ j <= from THEN j - 1 ELSE j]
Rotate(r, x, to, from) == Permute(r, x, RotateAxes(to, from))
NewAxisT(T, i, n) ==
  LET d == Dims(T) IN
  FromDims(SubSeq(d, 1, i) \o [j \in 1..n |-> [n |-> 1, s |-> 0]] \o SubSeq(d, i + 1, Len(d)), DType(T))
NewAxis(r, x, i, n) == View(r, x, hs[x].o, NewAxisT(hs[x].T, i, n), hs[x].fl)

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Contig(_)
Contig(T) == IF T.k # "dim" THEN TRUE ELSE (T.n <= 1 \/ T.s = Size(T.el)) /\ Contig(T.el)
CShape(sh, el) == LET RECURSIVE S(_) S(q) == IF q = <<>> THEN el ELSE [k |-> "dim", n |-> q[1], el |-> S(Tail(q))]
                  IN S(sh)
ReshapeOk(x, sh) == Prod(sh) = Prod(Shape(hs[x].T))
Reshape(r, x, sh) == View(r, x, hs[x].o, Layout(CShape(sh, DType(hs[x].T))), hs[x].fl)

(* ---- release ---- *)
Drop(x) == nb' = nb /\ Settle([y \in DOMAIN hs \ {x} |-> hs[y]], blocks)

(* ---- reinterpreting the scalars of a view in place ---- *)
IntLike == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
RECURSIVE MapLeaf(_, _)
MapLeaf(T, g) ==
  CASE T.k = "leaf" -> [k |-> "leaf", t |-> g[T.t]]
    [] T.k = "dim" -> [k |-> "dim", n |-> T.n, s |-> T.s, el |-> MapLeaf(T.el, g)]
    [] T.k = "struct" -> [k |-> "struct", f |-> [i \in 1..Len(T.f) |-> [n |-> T.f[i].n, o |-> T.f[i].o, t |-> MapLeaf(T.f[i].t, g)]]]
    [] OTHER -> [k |-> T.k, f |-> [i \in 1..Len(T.f) |-> [o |-> T.f[i].o, t |-> MapLeaf(T.f[i].t, g)]]]
Scalars == IntLike \cup {"bool", "float32", "float64", "bytes1", "bytes2", "bytes4", "bytes8"}
BytesOf == [t \in Scalars |-> CASE ScalarSize(t) = 1 -> "bytes1" [] ScalarSize(t) = 2 -> "bytes2"
                                [] ScalarSize(t) = 4 -> "bytes4" [] OTHER -> "bytes8"]
ViewAsOk(x, t) == DType(hs[x].T).k = "leaf" /\ ScalarSize(DType(hs[x].T).t) = ScalarSize(t)
ViewAs(r, x, t) == View(r, x, hs[x].o, MapLeaf(hs[x].T, [u \in Scalars |-> t]), hs[x].fl)
(* raw storage of scalars; records keep their fields *)
Storage(r, x) == LET T == hs[x].T IN
  View(r, x, hs[x].o, IF DType(T).k = "leaf" THEN MapLeaf(T, BytesOf) ELSE T, hs[x].fl)

(* ---- assignment: the source is repeated along missing and size-1 dims,   *)
(* struct fields are matched by name and tuple fields by position            *)
RECURSIVE BroadcastOk(_, _), Spread(_, _, _)
SrcField(D, S, i) == IF D.k = "tuple" THEN i ELSE CHOOSE j \in 1..Len(S.f) : S.f[j].n = D.f[i].n
FieldsMatch(D, S) ==
  /\ D.k = S.k /\ Len(D.f) = Len(S.f)
  /\ D.k = "struct" => {D.f[i].n : i \in 1..Len(D.f)} = {S.f[i].n : i \in 1..Len(S.f)}
BroadcastOk(D, S) ==
  LET d == NDim(D) s == NDim(S) IN
  IF s > d THEN FALSE
  ELSE IF d > s THEN BroadcastOk(D.el, S)
  ELSE IF d > 0 THEN (S.n = D.n \/ S.n = 1) /\ BroadcastOk(D.el, S.el)
  ELSE IF D.k = "leaf" \/ S.k = "leaf" THEN D.k = S.k
  ELSE FieldsMatch(D, S) /\ \A i \in 1..Len(D.f) : BroadcastOk(D.f[i].t, S.f[SrcField(D, S, i)].t)
Spread(D, S, v) ==
  LET d == NDim(D) s == NDim(S) IN
  IF d > s THEN [i \in 1..D.n |-> Spread(D.el, S, v)]
  ELSE IF d > 0 THEN [i \in 1..D.n |-> Spread(D.el, S.el, v[IF S.n = 1 THEN 1 ELSE i])]
  ELSE IF D.k = "leaf" THEN v
  ELSE [i \in 1..Len(D.f) |-> LET j == SrcField(D, S, i) IN Spread(D.f[i].t, S.f[j].t, v[j])]
AssignOk(x, T) == CanWrite(hs[x].fl) /\ BroadcastOk(hs[x].T, T)
StoreTo(x, o, T, v) ==
  /\ blocks' = [blocks EXCEPT ![hs[x].b].m = Store(blocks[hs[x].b].m, T, o, v)]
  /\ UNCHANGED <<hs, freed, nb>>
Assign(x, S, v) == StoreTo(x, hs[x].o, hs[x].T, Spread(hs[x].T, S, v))
AssignAt(x, ix, S, v) ==
  LET q == Index(hs[x].T, ix) IN StoreTo(x, hs[x].o + q[1], q[2], Spread(q[2], S, v))

(* ---- properties of every reachable state ---- *)
CellsOf(h) == Range(Leaves(h.T, h.o))
TypeOK ==
  /\ \A x \in DOMAIN hs : hs[x].b \in DOMAIN blocks
  /\ \A b \in DOMAIN blocks : b \in 1..nb
(* a view only ever reaches cells of the block it keeps alive *)
InBounds == \A x \in DOMAIN hs : CellsOf(hs[x]) \subseteq DOMAIN blocks[hs[x].b].m
(* storage lives exactly as long as somebody refers to it *)
NoLeak == \A b \in DOMAIN blocks : \E x \in DOMAIN hs : hs[x].b = b
NoEarlyFree == freed \cap DOMAIN blocks = {}
(* access flags of all handles on a block derive from how the block was made *)
=============================================================================
