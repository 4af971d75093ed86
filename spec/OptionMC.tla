------------------------------ MODULE OptionMC ------------------------------
(* Assignment between optional arrays done the way a buffered implementation *)
(* does it: the source is looked at one chunk at a time, and each chunk is   *)
(* split into runs of available and of missing values.  Checked against the  *)
(* pointwise meaning for every pattern of missing values; the patterns are   *)
(* printed for replay.  Also: laws of NA on the machine types.               *)
EXTENDS DyndOption, Json
CONSTANTS MaxN, Chunk
VARIABLES src, dst, base, pos, lim      \* pos: elements of the chunk done; lim: its size
vars == <<src, dst, base, pos, lim>>

Patterns == UNION {[1..n -> {0, 1}] : n \in 1..MaxN}      \* 1: missing
Init == src \in Patterns /\ dst = <<>> /\ base = 0 /\ pos = 0 /\ lim = 0
Min(a, b) == IF a < b THEN a ELSE b
NextChunk == /\ pos = lim /\ base + pos < Len(src)
             /\ base' = base + pos /\ pos' = 0 /\ lim' = Min(Chunk, Len(src) - base - pos) /\ UNCHANGED <<src, dst>>
RunEnd(k) == LET e == {j \in pos..(lim - 1) : src[base + j + 1] # k} IN
             IF e = {} THEN lim ELSE CHOOSE j \in e : \A i \in e : j <= i
Run == /\ pos < lim
       /\ LET k == src[base + pos + 1] IN
          /\ pos' = RunEnd(k)
          /\ dst' = dst \o [i \in 1..(RunEnd(k) - pos) |-> IF k = 1 THEN 0 ELSE base + pos + i]   \* 0: NA; i: the value of element i
       /\ UNCHANGED <<src, base, lim>>
Next == NextChunk \/ Run
Pointwise == Len(dst) = base + pos /\ \A i \in DOMAIN dst : dst[i] = IF src[i] = 1 THEN 0 ELSE i
Ends == pos = lim /\ base + pos = Len(src) => Len(dst) = Len(src)
Measure == base + pos <= Len(src) /\ pos <= lim
Emit == pos = 0 /\ lim = 0 => PrintT("GEN " \o ToJson(src))

(* NA is an element of its own: storing a value and reading it back gives    *)
(* the value, except for the one number NA is stored as; conversions between *)
(* optional types never make a number of NA nor NA of another number         *)
ASSUME \A n \in HasNA : IsNA(Types[n], NA(Types[n])) /\ Len(NA(Types[n])) = (IF Types[n].k = "cpx" THEN 2 * Size(Types[n].el) ELSE Size(Types[n]))
ASSUME \A n \in HasNA \ {"bool", "complex64", "complex128"} :
         LET T == Types[n] IN \A k \in 0..20 : \A sg \in {0, 1} :
           LET x == Fin(sg, UBits(k * 6, 8), 0) IN
           (T.k = "int" /\ ~InRange(T, x)) \/ (~IsNA(T, Bytes(EncodeBits(T, x))) /\ SameValue(Decode(T, Bytes(EncodeBits(T, x))), x))
ASSUME \A n \in HasNA \ {"bool", "complex64", "complex128"} : Types[n].k = "int" =>
         LET x == Decode(Types[n], NA(Types[n])) IN    \* NA is stored as the number farthest out
           \A m \in HasNA : Types[m].k = "int" /\ Types[m].sg = 1 /\ Types[m].w < Types[n].w => Conv(Types[m], Types[n], x, "fractional").err = "yes"
=============================================================================
