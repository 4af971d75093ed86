------------------------------- MODULE ValueMC ------------------------------
(* String objects with a small internal buffer of Cap bytes, storage on the  *)
(* heap beyond it, growth by half, and stale bytes in what is not in use:    *)
(* every history of operations on two objects leaves each with the value     *)
(* that plain values would have.  Histories are printed for replay.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cap, Sizes, MaxOps
VARIABLES rep, abs, hist
vars == <<rep, abs, hist>>
Objs == {"a", "b"}
Stale == 0
(* a value is described by the bytes it has; bytes are numbered by the operation that wrote them *)
Fill(k, n) == [i \in 1..n |-> k]
Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> Stale]
Small == [heap |-> FALSE, cap |-> Cap, size |-> 0, buf |-> Pad(<<>>, Cap)]
Val(r) == SubSeq(r.buf, 1, r.size)
Over(old, s) == s \o SubSeq(old, Len(s) + 1, Len(old))       \* s written over the start of old
Put(r, s) == IF Len(s) <= r.cap THEN [r EXCEPT !.size = Len(s), !.buf = Over(r.buf, s)]
             ELSE [heap |-> TRUE, cap |-> Len(s), size |-> Len(s), buf |-> s]
Reserve(r, n) == IF n <= r.cap THEN r ELSE [heap |-> TRUE, cap |-> n, size |-> r.size, buf |-> Pad(Val(r), n)]
Grow(r, n) == LET g == (r.cap * 3) \div 2 IN Reserve(r, IF n > g THEN n ELSE g)
Size(r, n, k) ==       \* the bytes gained are written by the caller
  LET q == Reserve(r, n) IN [q EXCEPT !.size = n, !.buf = IF n <= q.size THEN q.buf ELSE SubSeq(q.buf, 1, q.size) \o Fill(k, n - q.size) \o SubSeq(q.buf, n + 1, q.cap)]
Append_(r, s) == LET q == Grow(r, r.size + Len(s)) IN [q EXCEPT !.size = r.size + Len(s), !.buf = SubSeq(q.buf, 1, r.size) \o s \o SubSeq(q.buf, r.size + Len(s) + 1, q.cap)]
Init == rep = [o \in Objs |-> Small] /\ abs = [o \in Objs |-> <<>>] /\ hist = <<>>
k == Len(hist) + 1
Did(op) == hist' = Append(hist, op)
Upd(o, r, v) == rep' = [rep EXCEPT ![o] = r] /\ abs' = [abs EXCEPT ![o] = v]
Next == Len(hist) < MaxOps /\ \E o \in Objs :
  \/ \E n \in Sizes : Upd(o, Put(rep[o], Fill(k, n)), Fill(k, n)) /\ Did([op |-> "assign", o |-> o, n |-> n])
  \/ \E n \in Sizes : n > 0 /\ Len(abs[o]) <= 2 * Cap /\ Upd(o, Append_(rep[o], Fill(k, n)), abs[o] \o Fill(k, n)) /\ Did([op |-> "append", o |-> o, n |-> n])
  \/ \E n \in Sizes : Upd(o, Size(rep[o], n, k), IF n <= Len(abs[o]) THEN SubSeq(abs[o], 1, n) ELSE abs[o] \o Fill(k, n - Len(abs[o]))) /\ Did([op |-> "resize", o |-> o, n |-> n])
  \/ \E n \in Sizes : Upd(o, Reserve(rep[o], n), abs[o]) /\ Did([op |-> "reserve", o |-> o, n |-> n])
  \/ \E p \in Objs : Upd(o, Put(rep[o], Val(rep[p])), abs[p]) /\ Did([op |-> "copy", o |-> o, p |-> p])
  \/ \E p \in Objs : Len(abs[o]) <= 2 * Cap /\ Len(abs[p]) <= 2 * Cap /\ Upd(o, Append_(rep[o], Val(rep[p])), abs[o] \o abs[p]) /\ Did([op |-> "add", o |-> o, p |-> p])
  \/ \E p \in Objs \ {o} : /\ rep' = [rep EXCEPT ![o] = rep[p], ![p] = Small]
                           /\ abs' = [abs EXCEPT ![o] = abs[p], ![p] = <<>>] /\ Did([op |-> "move", o |-> o, p |-> p])
  \/ Upd(o, Small, <<>>) /\ Did([op |-> "clear", o |-> o])
Refines == \A o \in Objs : Val(rep[o]) = abs[o]
Storage == \A o \in Objs : LET r == rep[o] IN r.size <= r.cap /\ Len(r.buf) = r.cap /\ (~r.heap => r.cap = Cap) /\ (r.heap => r.cap > Cap)
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
