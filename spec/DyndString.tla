----------------------------- MODULE DyndString -----------------------------
(* Strings: sequences of bytes with value semantics, the operations on them, *)
(* and texts (sequences of code points) in the encodings of the library.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- searching.  Positions count from 0. *)
At(h, n, i) == i + Len(n) <= Len(h) /\ SubSeq(h, i + 1, i + Len(n)) = n
Occ(h, n) == {i \in 0..(Len(h) - Len(n)) : At(h, n, i)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
(* the occurrences a scan from the left meets, none overlapping another *)
RECURSIVE Scan(_, _, _)
Scan(occ, len, from) == LET S == {i \in occ : i >= from} IN
                        IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o Scan(occ, len, SetMin(S) + len)
Matches(h, n) == IF n = <<>> THEN <<>> ELSE Scan(Occ(h, n), Len(n), 0)
Count(h, n) == Len(Matches(h, n))
Find(h, n) == IF Occ(h, n) = {} THEN -1 ELSE SetMin(Occ(h, n))
RFind(h, n) == IF Occ(h, n) = {} THEN -1 ELSE SetMax(Occ(h, n))
Contains(h, n) == Occ(h, n) # {}
StartsWith(h, n) == At(h, n, 0)
EndsWith(h, n) == Len(n) <= Len(h) /\ At(h, n, Len(h) - Len(n))
Split(h, n) == LET m == Matches(h, n)
                   from(k) == IF k = 1 THEN 0 ELSE m[k - 1] + Len(n)
                   to(k) == IF k > Len(m) THEN Len(h) ELSE m[k]
               IN [k \in 1..(Len(m) + 1) |-> SubSeq(h, from(k) + 1, to(k))]
RECURSIVE Join(_, _)
Join(p, sep) == IF Len(p) = 0 THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o sep \o Join(Tail(p), sep)
Replace(h, n, r) == Join(Split(h, n), r)

(* ---- encodings: a text is a sequence of code points *)
Scalar(cp) == cp \in 0..55295 \/ cp \in 57344..1114111
Enc8(cp) == IF cp < 128 THEN <<cp>>
            ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
            ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
            ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Enc16(cp) == IF cp < 65536 THEN <<cp>> ELSE <<55296 + (cp - 65536) \div 1024, 56320 + ((cp - 65536) % 1024)>>
(* code units of a code point; <<>> if the encoding has none for it *)
EncOne(enc, cp) ==
  CASE enc = "ascii" -> IF cp < 128 THEN <<cp>> ELSE <<>>
    [] enc = "ucs2" -> IF cp < 65536 THEN <<cp>> ELSE <<>>
    [] enc = "utf8" -> Enc8(cp)
    [] enc = "utf16" -> Enc16(cp)
    [] enc = "utf32" -> <<cp>>
RECURSIVE Encode(_, _)
Encode(enc, t) == IF t = <<>> THEN <<>> ELSE EncOne(enc, t[1]) \o Encode(enc, Tail(t))
CanEncode(enc, t) == \A i \in DOMAIN t : EncOne(enc, t[i]) # <<>>

Bad == <<-1>>
Cont(u, i) == i <= Len(u) /\ u[i] \in 128..191
(* the code point at the start of u and the number of units it takes; 0 units if there is none *)
Dec8(u) ==
  LET a == u[1] IN
  IF a < 128 THEN <<a, 1>>
  ELSE IF a \in 194..223 /\ Cont(u, 2) THEN <<(a - 192) * 64 + u[2] - 128, 2>>
  ELSE IF a \in 224..239 /\ Cont(u, 2) /\ Cont(u, 3)
       THEN LET cp == (a - 224) * 4096 + (u[2] - 128) * 64 + u[3] - 128 IN IF cp >= 2048 /\ Scalar(cp) THEN <<cp, 3>> ELSE <<0, 0>>
  ELSE IF a \in 240..244 /\ Cont(u, 2) /\ Cont(u, 3) /\ Cont(u, 4)
       THEN LET cp == (a - 240) * 262144 + (u[2] - 128) * 4096 + (u[3] - 128) * 64 + u[4] - 128 IN IF cp >= 65536 /\ Scalar(cp) THEN <<cp, 4>> ELSE <<0, 0>>
  ELSE <<0, 0>>
Dec16(u) ==
  LET a == u[1] IN
  IF a \in 55296..56319
  THEN IF Len(u) > 1 /\ u[2] \in 56320..57343 THEN <<65536 + (a - 55296) * 1024 + u[2] - 56320, 2>> ELSE <<0, 0>>
  ELSE IF a \in 56320..57343 THEN <<0, 0>> ELSE <<a, 1>>
DecOne(enc, u) == CASE enc = "ascii" -> IF u[1] < 128 THEN <<u[1], 1>> ELSE <<0, 0>>
                    [] enc \in {"ucs2", "utf32"} -> IF Scalar(u[1]) THEN <<u[1], 1>> ELSE <<0, 0>>
                    [] enc = "utf8" -> Dec8(u)
                    [] enc = "utf16" -> Dec16(u)
RECURSIVE Decode(_, _)
Decode(enc, u) == IF u = <<>> THEN <<>>
                  ELSE LET d == DecOne(enc, u) IN
                       IF d[2] = 0 THEN Bad
                       ELSE LET rest == Decode(enc, SubSeq(u, d[2] + 1, Len(u))) IN
                            IF rest = Bad THEN Bad ELSE <<d[1]>> \o rest
(* the units of a fixed-size string before its first zero *)
RECURSIVE UpToZero(_)
UpToZero(u) == IF u = <<>> \/ u[1] = 0 THEN <<>> ELSE <<u[1]>> \o UpToZero(Tail(u))
=============================================================================
