----------------------------- MODULE DyndIndex ------------------------------
(* Indexing: the meaning of an integer index or a range on a dimension of n  *)
(* elements, and of a list of them on a layout.                              *)
(*   [k |-> "i", i |-> index]                                                *)
(*   [k |-> "r", a |-> start, b |-> finish, s |-> step,                      *)
(*    am |-> 1 if the start is omitted, bm |-> 1 if the finish is omitted]   *)
EXTENDS DyndLayout

ERR == [ok |-> FALSE]
Pick(i) == [ok |-> TRUE, one |-> TRUE, start |-> i, step |-> 1, size |-> 1]
Slice(st, step, n) == [ok |-> TRUE, one |-> FALSE, start |-> st, step |-> step, size |-> n]
Empty == Slice(0, 1, 0)
CeilDiv(a, b) == (a + b - 1) \div b

Single(i, n) == IF i >= 0 /\ i < n THEN Pick(i)
                ELSE IF i < 0 /\ i >= -n THEN Pick(i + n) ELSE ERR

Forward(x, n) ==
  LET start == IF x.am = 1 THEN 0 ELSE IF x.a >= 0 THEN x.a ELSE IF x.a >= -n THEN x.a + n ELSE 0
      fin == IF x.bm = 1 THEN n ELSE IF x.b >= 0 THEN (IF x.b <= n THEN x.b ELSE n)
             ELSE x.b + n
  IN IF x.am = 0 /\ x.a >= n THEN ERR           \* explicit start past the end
     ELSE IF x.bm = 0 /\ x.b < -n THEN ERR
     ELSE IF fin - start > 0 THEN Slice(start, x.s, CeilDiv(fin - start, x.s))
     ELSE Empty

Backward(x, n) ==
  LET start == IF x.am = 1 THEN n - 1 ELSE IF x.a >= 0 THEN x.a ELSE x.a + n
      fin == IF x.bm = 1 THEN -1 ELSE IF x.b >= 0 THEN x.b ELSE IF x.b >= -n THEN x.b + n ELSE -1
  IN IF x.am = 0 /\ (x.a >= n \/ x.a < -n) THEN ERR
     ELSE IF x.bm = 0 /\ x.b >= n THEN ERR
     ELSE IF start - fin > 0 THEN Slice(start, x.s, CeilDiv(start - fin, -x.s))
     ELSE Empty

Resolve(x, n) == IF x.k = "i" THEN Single(x.i, n)
                 ELSE IF x.s > 0 THEN Forward(x, n) ELSE Backward(x, n)

(* Index a layout: <<>> on error, else <<offset, layout>> *)
RECURSIVE Index(_, _)
Index(T, ix) ==
  IF ix = <<>> THEN <<0, T>>
  ELSE IF T.k = "leaf" THEN <<>>                \* too many indices
  ELSE IF T.k = "dim" THEN
    LET q == Resolve(ix[1], T.n) IN
    IF ~q.ok THEN <<>>
    ELSE LET sub == Index(T.el, Tail(ix)) IN
      IF sub = <<>> THEN <<>>
      ELSE IF q.one THEN <<q.start * T.s + sub[1], sub[2]>>
      ELSE <<q.start * T.s + sub[1],
             [k |-> "dim", n |-> q.size, s |-> T.s * q.step, el |-> sub[2]]>>
  ELSE
    LET q == Resolve(ix[1], Len(T.f)) IN
    IF ~q.ok THEN <<>>
    ELSE IF q.one THEN
      LET fld == T.f[q.start + 1] sub == Index(fld.t, Tail(ix)) IN
      IF sub = <<>> THEN <<>> ELSE <<fld.o + sub[1], sub[2]>>
    ELSE
      LET src(i) == T.f[q.start + (i - 1) * q.step + 1]
          sub == [i \in 1..q.size |-> Index(src(i).t, Tail(ix))]
      IN IF \E i \in 1..q.size : sub[i] = <<>> THEN <<>>
         ELSE <<0, [k |-> T.k, f |-> [i \in 1..q.size |->
                  IF T.k = "struct" THEN [n |-> src(i).n, o |-> src(i).o + sub[i][1], t |-> sub[i][2]]
                  ELSE [o |-> src(i).o + sub[i][1], t |-> sub[i][2]]]]>>

(* Number of scalars a list of indices selects, counted independently of the *)
(* geometry (used as an invariant on the operator above).                    *)
Selected(x, n) ==
  IF x.k = "i" THEN {i \in 0..(n - 1) : i = x.i \/ i = x.i + n}
  ELSE LET lo == IF x.am = 1 THEN (IF x.s > 0 THEN 0 ELSE n - 1)
                    ELSE IF x.a < -n /\ x.s > 0 THEN 0        \* a range may start before the first element
                    ELSE IF x.a < 0 THEN x.a + n ELSE x.a
           hi == IF x.bm = 1 THEN (IF x.s > 0 THEN n ELSE -1) ELSE IF x.b < 0 THEN x.b + n ELSE x.b
       IN IF x.s > 0 THEN {i \in 0..(n - 1) : i >= lo /\ i < hi /\ (i - lo) % x.s = 0}
          ELSE {i \in 0..(n - 1) : i <= lo /\ i > hi /\ (lo - i) % (-x.s) = 0}
=============================================================================
