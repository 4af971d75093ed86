----------------------------- MODULE DyndLayout -----------------------------
(* Types, memory layout and nested values.                                   *)
(*                                                                           *)
(* A type is a record tree:                                                  *)
(*   [k |-> "leaf", t |-> name]           a scalar                           *)
(*   [k |-> "dim", n |-> size, el |-> T]  a fixed dimension                  *)
(*   [k |-> "struct", f |-> <<[n,t],...>>], [k |-> "tuple", f |-> <<[t]..>>] *)
(* A layout is the same tree with a byte stride "s" on every dimension and a *)
(* byte offset "o" on every field.  Memory is a function from byte offsets   *)
(* (of scalars inside one block) to values.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ScalarSize(t) ==
  CASE t \in {"bool", "int8", "uint8", "bytes1"} -> 1
    [] t \in {"int16", "uint16", "float16", "bytes2"} -> 2
    [] t \in {"int32", "uint32", "float32", "bytes4"} -> 4
    [] t \in {"int64", "uint64", "float64", "bytes8"} -> 8

RoundUp(x, a) == ((x + a - 1) \div a) * a
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE Align(_), Size(_)
RECURSIVE FieldsEnd(_, _), FieldsAlign(_, _)
Align(T) == CASE T.k = "leaf" -> ScalarSize(T.t)
              [] T.k = "dim" -> Align(T.el)
              [] OTHER -> FieldsAlign(T.f, Len(T.f))
FieldsAlign(f, i) == IF i = 0 THEN 1 ELSE MaxOf(FieldsAlign(f, i - 1), Align(f[i].t))
(* offset just past field i *)
FieldOffset(f, i) == RoundUp(FieldsEnd(f, i - 1), Align(f[i].t))
FieldsEnd(f, i) == IF i = 0 THEN 0 ELSE FieldOffset(f, i) + Size(f[i].t)
Size(T) == CASE T.k = "leaf" -> ScalarSize(T.t)
             [] T.k = "dim" -> T.n * Size(T.el)
             [] OTHER -> RoundUp(FieldsEnd(T.f, Len(T.f)), FieldsAlign(T.f, Len(T.f)))

(* The layout given to a newly created array of a type: C order, naturally  *)
(* aligned fields.                                                          *)
RECURSIVE Layout(_)
Layout(T) ==
  CASE T.k = "leaf" -> T
    [] T.k = "dim" -> [k |-> "dim", n |-> T.n, s |-> IF T.n <= 1 THEN 0 ELSE Size(T.el), el |-> Layout(T.el)]
    [] T.k = "struct" -> [k |-> "struct", f |-> [i \in 1..Len(T.f) |->
                           [n |-> T.f[i].n, o |-> FieldOffset(T.f, i), t |-> Layout(T.f[i].t)]]]
    [] T.k = "tuple" -> [k |-> "tuple", f |-> [i \in 1..Len(T.f) |->
                           [o |-> FieldOffset(T.f, i), t |-> Layout(T.f[i].t)]]]

(* Shape without geometry *)
RECURSIVE Skel(_)
Skel(T) ==
  CASE T.k = "leaf" -> T
    [] T.k = "dim" -> [k |-> "dim", n |-> T.n, el |-> Skel(T.el)]
    [] T.k = "struct" -> [k |-> "struct", f |-> [i \in 1..Len(T.f) |-> [n |-> T.f[i].n, t |-> Skel(T.f[i].t)]]]
    [] OTHER -> [k |-> T.k, f |-> [i \in 1..Len(T.f) |-> [t |-> Skel(T.f[i].t)]]]

(* Concatenation of f(1) .. f(n) *)
RECURSIVE Cat(_, _)
Cat(F(_), n) == IF n = 0 THEN <<>> ELSE Cat(F, n - 1) \o F(n)

(* Byte offsets of the scalars in row-major order, for a layout at offset o *)
RECURSIVE Leaves(_, _)
Leaves(T, o) ==
  CASE T.k = "leaf" -> <<o>>
    [] T.k = "dim" -> LET F(i) == Leaves(T.el, o + (i - 1) * T.s) IN Cat(F, T.n)
    [] OTHER -> LET F(i) == Leaves(T.f[i].t, o + T.f[i].o) IN Cat(F, Len(T.f))

RECURSIVE Read(_, _, _)
Read(T, o, m) ==
  CASE T.k = "leaf" -> m[o]
    [] T.k = "dim" -> [i \in 1..T.n |-> Read(T.el, o + (i - 1) * T.s, m)]
    [] OTHER -> [i \in 1..Len(T.f) |-> Read(T.f[i].t, o + T.f[i].o, m)]

RECURSIVE Flat(_, _)
Flat(T, v) ==
  CASE T.k = "leaf" -> <<v>>
    [] T.k = "dim" -> LET F(i) == Flat(T.el, v[i]) IN Cat(F, T.n)
    [] OTHER -> LET F(i) == Flat(T.f[i].t, v[i]) IN Cat(F, Len(T.f))

Range(s) == {s[i] : i \in DOMAIN s}

(* Memory of a fresh block holding value v in layout T *)
Fill(T, v) ==
  LET L == Leaves(T, 0) V == Flat(T, v)
  IN [x \in Range(L) |-> V[CHOOSE i \in DOMAIN L : L[i] = x]]

(* Memory m after storing value v through layout T at offset o *)
Store(m, T, o, v) ==
  LET L == Leaves(T, o) V == Flat(T, v) R == Range(L)
  IN [x \in DOMAIN m |-> IF x \in R THEN V[CHOOSE i \in DOMAIN L : L[i] = x] ELSE m[x]]

(* Two geometries describe the same view: same shape, same scalars, in the  *)
(* same places.  Strides of dimensions of size <= 1 and positions in empty   *)
(* arrays are not observable.                                               *)
SameView(T1, o1, T2, o2) == Skel(T1) = Skel(T2) /\ Leaves(T1, o1) = Leaves(T2, o2)

NDim(T) == LET RECURSIVE D(_) D(X) == IF X.k = "dim" THEN 1 + D(X.el) ELSE 0 IN D(T)
RECURSIVE Shape(_)
Shape(T) == IF T.k = "dim" THEN <<T.n>> \o Shape(T.el) ELSE <<>>
RECURSIVE DType(_)
DType(T) == IF T.k = "dim" THEN DType(T.el) ELSE T
(* Every scalar of the view is a different memory cell *)
NoSelfOverlap(T) == LET L == Leaves(T, 0) IN Cardinality(Range(L)) = Len(L)
(* dims <<[n, s], ...>> outermost first *)
RECURSIVE Dims(_)
Dims(T) == IF T.k = "dim" THEN <<[n |-> T.n, s |-> T.s]>> \o Dims(T.el) ELSE <<>>
RECURSIVE FromDims(_, _)
FromDims(d, el) == IF d = <<>> THEN el
                   ELSE [k |-> "dim", n |-> d[1].n, s |-> d[1].s, el |-> FromDims(Tail(d), el)]
=============================================================================
