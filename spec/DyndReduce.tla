----------------------------- MODULE DyndReduce -----------------------------
(* Reductions of arrays over any subset of their dimensions.                 *)
EXTENDS DyndElwise

(* Type of the result: a reduced dimension disappears, or keeps size one     *)
RECURSIVE RedType(_, _, _, _, _)
RedType(T, ax, axes, keep, ret) ==
  IF ~IsDim(T) THEN ret
  ELSE LET el == RedType(T.el, ax + 1, axes, keep, ret) IN
       IF ax \notin axes THEN [k |-> "dim", n |-> T.n, el |-> el]
       ELSE IF keep THEN [k |-> "dim", n |-> 1, el |-> el]
       ELSE el

(* Var dimensions are only reduced innermost, in calls with one argument *)
RECURSIVE VarOk(_, _, _)
VarOk(T, ax, axes) ==
  IF ~IsDim(T) THEN TRUE
  ELSE /\ T.k = "var" => (~IsDim(T.el) /\ ax \in axes)
       /\ VarOk(T.el, ax + 1, axes)

(* The scalars that go into every scalar of the result, in row-major order:  *)
(* the kept dimensions, with a sequence of scalars at each place.            *)
RECURSIVE NoScalars(_, _, _), Join(_, _, _, _, _), Gather(_, _, _, _), GatherAll(_, _, _, _, _)
NoScalars(T, ax, axes) ==
  IF ~IsDim(T) THEN <<>>
  ELSE IF ax \in axes THEN NoScalars(T.el, ax + 1, axes)
  ELSE [j \in 1..T.n |-> NoScalars(T.el, ax + 1, axes)]
Join(T, ax, axes, a, b) ==
  IF ~IsDim(T) THEN a \o b
  ELSE IF ax \in axes THEN Join(T.el, ax + 1, axes, a, b)
  ELSE [j \in 1..T.n |-> Join(T.el, ax + 1, axes, a[j], b[j])]
Gather(T, ax, axes, v) ==
  IF ~IsDim(T) THEN <<v>>
  ELSE IF ax \in axes THEN GatherAll(T, ax, axes, v, Len(v))
  ELSE [j \in 1..T.n |-> Gather(T.el, ax + 1, axes, v[j])]
GatherAll(T, ax, axes, v, n) ==
  IF n = 0 THEN NoScalars(T.el, ax + 1, axes)
  ELSE Join(T.el, ax + 1, axes, GatherAll(T, ax, axes, v, n - 1), Gather(T.el, ax + 1, axes, v[n]))

(* Result value: fold S over the sequence at each place *)
RECURSIVE RedVal(_, _, _, _, _, _)
RedVal(S(_), T, ax, axes, keep, g) ==
  IF ~IsDim(T) THEN S(g)
  ELSE IF ax \notin axes THEN [j \in 1..T.n |-> RedVal(S, T.el, ax + 1, axes, keep, g[j])]
  ELSE IF keep THEN <<RedVal(S, T.el, ax + 1, axes, keep, g)>>
  ELSE RedVal(S, T.el, ax + 1, axes, keep, g)

Reduce(S(_), T, v, axes, keep) == RedVal(S, T, 0, axes, keep, Gather(T, 0, axes, v))

(* pair up the scalars of two values of the same type *)
RECURSIVE Zip(_, _, _)
Zip(T, v, w) == IF ~IsDim(T) THEN <<v, w>> ELSE [j \in 1..Len(v) |-> Zip(T.el, v[j], w[j])]
RECURSIVE SameDims(_, _)
SameDims(T, U) == IF ~IsDim(T) \/ ~IsDim(U) THEN IsDim(T) = IsDim(U)
                  ELSE T.k = U.k /\ (T.k = "dim" => T.n = U.n) /\ SameDims(T.el, U.el)
=============================================================================
