------------------------------- MODULE BlockMC ------------------------------
(* The chunked allocator, exhaustively: chunks are taken from the system,    *)
(* regions are cut from the newest one, a region that does not fit any more  *)
(* is moved to a new chunk.  It does what DyndBlock says about regions:      *)
(* contents, disjointness, and objects destroyed exactly once.               *)
EXTENDS DyndBlock, FiniteSets, TLC, Json
CONSTANTS Kinds, Cap0, MaxN, Depth
VARIABLES kind, hist, regs,     \* the specification
          chunks,               \* <<[id, cap, used]>>, newest last
          mem,                  \* [<<id, offset>> -> value]
          at,                   \* where the regions are: <<[id, off, n]>>
          total, nid, dead, ghost, val
vars == <<kind, hist, regs, chunks, mem, at, total, nid, dead, ghost, val>>

Max2(a, b) == IF a > b THEN a ELSE b
NewChunk(id, cap, used) == [id |-> id, cap |-> cap, used |-> used]
Obj == kind = "object"
Val(m, id, o) == IF <<id, o>> \in DOMAIN m THEN m[<<id, o>>] ELSE Unknown
Put(m, id, off, s) == LET D == {<<id, off + j - 1>> : j \in DOMAIN s} IN
  [x \in (DOMAIN m) \cup D |-> IF x \in D THEN s[x[2] - off + 1] ELSE m[x]]
Get(m, id, off, n) == [j \in 1..n |-> Val(m, id, off + j - 1)]
Without(m, id) == [x \in {y \in DOMAIN m : y[1] # id} |-> m[x]]
Zero(n) == [j \in 1..n |-> 0]
Init0(m, id, off, n) == IF kind = "pod" THEN m ELSE Put(m, id, off, Zero(n))

Init == /\ kind \in Kinds /\ hist = <<>> /\ regs = <<>>
        /\ chunks = <<NewChunk(1, Cap0, 0)>> /\ mem = <<>> /\ at = <<>> /\ total = Cap0 /\ nid = 2 /\ dead = <<>> /\ ghost = <<>> /\ val = 1

Op(o) == /\ hist' = Append(hist, o)
         /\ regs' = After(kind, regs, o)
         /\ ghost' = ghost \o Gone(kind, regs, o)

Alloc(n) ==
  LET c == Last2(chunks) IN
  /\ Op([op |-> "alloc", n |-> n])
  /\ IF c.cap - c.used < n
     THEN LET t == IF Obj THEN total ELSE total - (c.cap - c.used)
              cap == Max2(t, n) IN
          /\ chunks' = Append(chunks, NewChunk(nid, cap, n))
          /\ total' = t + cap /\ nid' = nid + 1
          /\ at' = Append(at, [id |-> nid, off |-> 0, n |-> n])
          /\ mem' = Init0(mem, nid, 0, n)
     ELSE /\ chunks' = [chunks EXCEPT ![Len(chunks)].used = c.used + n]
          /\ at' = Append(at, [id |-> c.id, off |-> c.used, n |-> n])
          /\ mem' = Init0(mem, c.id, c.used, n)
          /\ UNCHANGED <<total, nid>>
  /\ UNCHANGED <<kind, dead, val>>

Resize(n) ==
  LET c == Last2(chunks)
      p == Last2(at)
      old == c.used - p.off IN
  /\ at # <<>>
  /\ Op([op |-> "resize", n |-> n])
  /\ IF p.off + n <= c.cap
     THEN /\ chunks' = [chunks EXCEPT ![Len(chunks)].used = p.off + n]
          /\ at' = Append(Front2(at), [p EXCEPT !.n = n])
          /\ dead' = IF Obj /\ n < old THEN dead \o Get(mem, c.id, p.off + n, old - n) ELSE dead
          /\ mem' = IF n > old THEN Init0(mem, c.id, p.off + old, n - old) ELSE mem
          /\ UNCHANGED <<total, nid>>
     ELSE LET cap == Max2(total, n)
              m1 == Put(mem, nid, 0, Get(mem, c.id, p.off, old))
              whole == Obj /\ p.off = 0 /\ old > 0 IN
          /\ chunks' = (IF whole THEN Front2(chunks) ELSE [chunks EXCEPT ![Len(chunks)].used = p.off]) \o <<NewChunk(nid, cap, n)>>
          /\ at' = Append(Front2(at), [id |-> nid, off |-> 0, n |-> n])
          /\ mem' = Init0(IF whole THEN Without(m1, c.id) ELSE m1, nid, old, n - old)
          /\ total' = total + cap - (IF Obj THEN 0 ELSE old)
          /\ nid' = nid + 1
          /\ dead' = dead
  /\ UNCHANGED <<kind, val>>

Fill(i) ==
  /\ i \in DOMAIN at /\ at[i].n > 0
  /\ Op([op |-> "fill", i |-> i, v |-> val])
  /\ mem' = Put(mem, at[i].id, at[i].off, [j \in 1..at[i].n |-> val + j - 1])
  /\ val' = val + at[i].n
  /\ UNCHANGED <<kind, chunks, at, total, nid, dead>>

RECURSIVE All(_)
All(cs) == IF cs = <<>> THEN <<>> ELSE Get(mem, cs[1].id, 0, cs[1].used) \o All(Tail(cs))
Reset ==
  /\ Op([op |-> "reset"])
  /\ dead' = IF Obj THEN dead \o All(chunks) ELSE dead
  /\ chunks' = <<[Last2(chunks) EXCEPT !.used = 0]>>
  /\ at' = <<>>
  /\ mem' = [x \in {y \in DOMAIN mem : y[1] = Last2(chunks).id} |-> mem[x]]
  /\ total' = IF Obj THEN total ELSE Last2(chunks).cap
  /\ UNCHANGED <<kind, nid, val>>

Next == /\ Len(hist) < Depth
        /\ \/ \E n \in 0..MaxN : Alloc(n)
           \/ \E n \in 0..(MaxN + 2) : Resize(n)
           \/ \E i \in {1, Len(at)} : Fill(i)
           \/ (hist # <<>> /\ Reset)
Spec == Init /\ [][Next]_vars

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
ChunkOf(id) == CHOOSE c \in {chunks[i] : i \in DOMAIN chunks} : c.id = id
Contents == /\ Len(at) = Len(regs)
            /\ \A i \in DOMAIN at : Len(regs[i]) = at[i].n /\ \A j \in 1..at[i].n :
                 regs[i][j] # Unknown => Val(mem, at[i].id, at[i].off + j - 1) = regs[i][j]
Inside == \A i \in DOMAIN at : at[i].n > 0 =>
            /\ \E k \in DOMAIN chunks : chunks[k].id = at[i].id
            /\ at[i].off + at[i].n <= ChunkOf(at[i].id).used
            /\ ChunkOf(at[i].id).used <= ChunkOf(at[i].id).cap
Apart == \A i, j \in DOMAIN at : i < j /\ at[i].id = at[j].id /\ at[i].n > 0 /\ at[j].n > 0 => at[i].off + at[i].n <= at[j].off
(* destroyed so far, and what dropping the block would still destroy *)
Once == Obj => SameBag(dead, ghost) /\ SameBag(All(chunks), Cat(regs))
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([kind |-> kind, ops |-> hist]))
=============================================================================
