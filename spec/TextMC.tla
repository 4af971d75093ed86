------------------------------- MODULE TextMC -------------------------------
(* Texts built one character at a time, against a reader that keeps a        *)
(* running value (the way an implementation reads a number): both must give  *)
(* the same number, overflow must be noticed at the right character, and the *)
(* texts reached are printed for replay.                                     *)
EXTENDS DyndText, Json
CONSTANTS MaxLen, Alphabet
VARIABLES w, acc        \* acc: the value of a plain number read so far, "none" if not plain
vars == <<w, acc>>
Init == w = <<>> /\ acc = 0
Next == Len(w) < MaxLen /\ \E ch \in Alphabet :
          /\ w' = Append(w, ch)
          /\ acc' = IF acc >= 0 /\ IsDigit(ch) THEN 10 * acc + ch - 48
                    ELSE IF acc = 0 /\ w = <<>> /\ ch = 45 THEN 0
                    ELSE -1
Body == IF w # <<>> /\ w[1] = 45 THEN Tail(w) ELSE w
Value == acc >= 0 /\ Body # <<>> =>
           Parse(w).plain /\ Denotes(Parse(w)) = Fin(IF w[1] = 45 THEN 1 ELSE 0, UBits(acc, 30), 0)
NotPlain == acc < 0 => ~Parse(w).plain
(* laws of the notation *)
Zeros_ == Parse(w).ok => LET p == Parse(w) q == Parse((IF p.s = 1 THEN <<45>> ELSE <<>>) \o <<48>> \o Body) IN q.ok /\ Denotes(q) = Denotes(p)
Shift == Parse(w).plain => LET q == Parse(w \o <<48>>) e == Parse(w \o <<101, 49>>) IN Denotes(q) = Denotes(e)
Fraction == Parse(w).plain => Denotes(Parse(w \o <<46, 48>>)) = Denotes(Parse(w))
                              /\ SameValue(Round(FltT(8, 5), Denotes(Parse(w \o <<48, 48, 48, 101, 45, 51>>))), Round(FltT(8, 5), Denotes(Parse(w))))
(* rounding agrees with search for the nearest of all numbers of a tiny type (3 bits, exponents -2..1) *)
Tiny == FltT(3, 2)
Decided == \A T \in {Types["uint8"], Types["int8"], Types["bool"], Tiny} : \A m \in {"overflow", "fractional"} :
             LET f == FromText(T, w, m) IN
             /\ (f.err = "no" => f.v.k = "fin")
             /\ (T.k = "int" /\ f.err \in {"no", "may"} => InRange(T, f.v) /\ IsInt(f.v))
             /\ (T.k = "int" /\ acc >= 0 /\ Body # <<>> => (f.err = "yes") <=> (acc > (IF T.sg = 0 THEN (IF w[1] = 45 THEN 0 ELSE 255) ELSE IF w[1] = 45 THEN 128 ELSE 127)))
Emit == PrintT("GEN " \o ToJson(w))
(* the decimal digits of 2^k + d, by doubling a digit sequence, read back *)
RECURSIVE Dbl(_, _), Pow2D(_), AddD(_, _)
Dbl(d, cy) == IF d = <<>> THEN (IF cy = 0 THEN <<>> ELSE <<cy>>)
              ELSE LET p == 2 * d[Len(d)] + cy IN Append(Dbl(SubSeq(d, 1, Len(d) - 1), p \div 10), p % 10)
Pow2D(k) == IF k = 0 THEN <<1>> ELSE Dbl(Pow2D(k - 1), 0)
AddD(d, n) ==            \* n in -9..9, d + n >= 0
  IF d = <<>> THEN (IF n = 0 THEN <<>> ELSE <<n>>)
  ELSE LET p == d[Len(d)] + n
           c == IF p < 0 THEN -1 ELSE IF p > 9 THEN 1 ELSE 0
       IN Append(AddD(SubSeq(d, 1, Len(d) - 1), c), p - 10 * c)
ASSUME \A k \in {1, 7, 8, 15, 16, 31, 32, 63, 64, 100} : Fin(0, LimbBits(Limbs(Pow2D(k))), 0) = Fin(0, <<1>>, k)
Edge == [k \in {7, 8, 15, 16, 31, 32, 63, 64} |-> {AddD(Pow2D(k), d) : d \in -2..2}]
EdgeTexts == UNION {{[i \in DOMAIN Lead(d) |-> Lead(d)[i] + 48] : d \in Edge[k]} : k \in DOMAIN Edge}
AllInts == {n \in DOMAIN Types : Types[n].k = "int"}
ASSUME \A t \in EdgeTexts : \A n \in AllInts : \A neg \in {<<>>, <<45>>} :
         LET f == FromText(Types[n], neg \o t, "fractional") IN
         /\ f.err \in {"no", "yes"}
         /\ f.err = "no" <=> InRange(Types[n], Denotes(Parse(neg \o t)))
ASSUME PrintT("EDGE " \o ToJson(EdgeTexts))
=============================================================================
