------------------------------ MODULE StringMC ------------------------------
(* The fast search with a skip table and a membership filter that may have   *)
(* false positives, run over every haystack and needle of a small alphabet,  *)
(* against the definition; the cases are printed for replay.  Also: the laws *)
(* of the encodings.                                                         *)
EXTENDS DyndString, Json
CONSTANTS Alphabet, MaxH, MaxN, Extra
VARIABLES h, n, bloom, i, found, done
vars == <<h, n, bloom, i, found, done>>
Strs(lo, hi) == UNION {[1..k -> Alphabet] : k \in lo..hi}
Chars(s) == {s[k] : k \in DOMAIN s}
Init == /\ h \in Strs(0, MaxH) /\ n \in Strs(2, MaxN)
        /\ bloom \in {Chars(n) \cup x : x \in SUBSET (Alphabet \cup {Extra})}
        /\ i = 0 /\ found = <<>> /\ done = FALSE
w == Len(h) - Len(n)
mlast == Len(n) - 1
Skip == LET S == {k \in 1..mlast : n[k] = n[Len(n)]} IN IF S = {} THEN mlast - 1 ELSE mlast - SetMax(S)
(* the byte after the window; past the end only where the algorithm does not look *)
After == h[i + mlast + 2]
Step == /\ ~done /\ i <= w
        /\ LET cand == h[i + mlast + 1] = n[Len(n)]
               match == cand /\ At(h, n, i)
               far == i < w /\ After \notin bloom
           IN IF match THEN found' = Append(found, i) /\ i' = i + Len(n)
              ELSE found' = found /\ i' = IF far THEN i + Len(n) + 1 ELSE IF cand THEN i + Skip + 1 ELSE i + 1
        /\ UNCHANGED <<h, n, bloom, done>>
Stop == ~done /\ i > w /\ done' = TRUE /\ UNCHANGED <<h, n, bloom, i, found>>
Next == Step \/ Stop
Right == done => found = Matches(h, n)
Sound == \A k \in DOMAIN found : found[k] = Matches(h, n)[k]
(* laws of the operations *)
Laws == i = 0 /\ ~done =>
          /\ Count(h, n) = Cardinality({k \in 1..Len(Matches(h, n)) : TRUE}) /\ (Count(h, n) > 0) = Contains(h, n)
          /\ Join(Split(h, n), n) = h
          /\ Replace(h, n, n) = h
          /\ (Find(h, n) = -1) = ~Contains(h, n) /\ Find(h, n) <= RFind(h, n)
          /\ StartsWith(h, n) = (Find(h, n) = 0) \/ Find(h, n) # 0
          /\ EndsWith(h \o n, n) /\ StartsWith(n \o h, n)
          /\ Len(Replace(h, n, <<>>)) = Len(h) - Len(n) * Count(h, n)
Emit == i = 0 /\ ~done /\ bloom = Chars(n) => PrintT("GEN " \o ToJson([h |-> h, n |-> n]))
(* encodings: every scalar value near a boundary survives every encoding that has it, and decoding rejects all else *)
Edge == {0, 1, 65, 127, 128, 255, 2047, 2048, 4095, 4096, 55295, 57344, 65533, 65535, 65536, 65537, 131071, 1048575, 1048576, 1114111}
ASSUME \A e \in {"ascii", "ucs2", "utf8", "utf16", "utf32"} : \A a \in Edge : \A b \in Edge :
         CanEncode(e, <<a, b>>) => Decode(e, Encode(e, <<a, b>>)) = <<a, b>>
Lead8 == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
ASSUME \A u \in UNION {[1..k -> Lead8] : k \in 1..3} : LET t == Decode("utf8", u) IN t = Bad \/ Encode("utf8", t) = u
ASSUME \A u \in UNION {[1..k -> {0, 65, 55295, 55296, 56319, 56320, 57343, 57344, 65535}] : k \in 1..3} :
         LET t == Decode("utf16", u) IN t = Bad \/ Encode("utf16", t) = u
=============================================================================
