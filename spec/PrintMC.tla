------------------------------- MODULE PrintMC -------------------------------
(* The way the library lays out the elements of a dimension (columns of equal *)
(* width, or one element to a line; long dimensions shortened) against the    *)
(* meaning: the text can be read back, everything is in its place.            *)
EXTENDS DyndPrint, Json
CONSTANTS MaxN, MaxW, MaxRows, Old     \* Old: as it was before it was repaired
VARIABLES n, m, w, x     \* x: <<the place of an element of another width, the width>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Concat(_, _, _)
Concat(f, i, k) == IF i > k THEN <<>> ELSE f[i] \o Concat(f, i + 1, k)
Lines(t) == 1 + Cardinality({i \in DOMAIN t : t[i] = 10})
RECURSIVE SumLines(_, _, _)
SumLines(ts, i, k) == IF i > k THEN 0 ELSE Lines(ts[i]) + SumLines(ts, i + 1, k)
RECURSIVE MaxLen(_, _, _)
MaxLen(ts, i, k) == IF i > k THEN 0 ELSE Max2(Len(ts[i]), MaxLen(ts, i + 1, k))
RECURSIVE Indent(_, _)
Indent(t, i) == IF i > Len(t) THEN <<>> ELSE (IF t[i] = 10 /\ i < Len(t) THEN <<10, 32>> ELSE <<t[i]>>) \o Indent(t, i + 1)
Pad(t, k) == [i \in 1..Max2(0, k - Len(t)) |-> 32] \o t
NewLine == <<44, 10>>
Ellipsis == <<44, 10, 32, 46, 46, 46, 10>>

(* ---- one element to a line: a elements in front, z at the end             *)
RECURSIVE Trim(_, _, _, _)
(* lines of what is shown go below the limit; returns <<front, end>> *)
Trim(ts, a, z, rows) ==
  IF ~(rows > 10 /\ (z > 1 \/ a > 1)) THEN <<a, z>>
  ELSE LET k == Len(ts)
           r1 == IF z > 1 THEN rows - Lines(ts[k - z + 1]) ELSE rows
           z1 == IF z > 1 THEN z - 1 ELSE z
       IN IF r1 > 10 /\ a > 1
          THEN IF z1 = 0 THEN Trim(ts, a - 1, 1, r1) ELSE Trim(ts, a - 1, z1, r1 - Lines(ts[a]))
          ELSE Trim(ts, a, z1, r1)
ByLine(ts, a, z, first) ==      \* first: the first element of the end part
  LET k == Len(ts)
      front == [i \in 1..a |-> (IF i = 1 THEN <<>> ELSE NewLine \o <<32>>) \o Indent(ts[i], 1)]
      end == [i \in 1..z |-> (IF i = 1 THEN <<32>> ELSE NewLine \o <<32>>) \o Indent(ts[first + i - 1], 1)]
      mid == IF a = k THEN <<>> ELSE IF k > a + z THEN Ellipsis ELSE IF Old THEN <<>> ELSE NewLine
  IN <<91>> \o Concat(front, 1, a) \o mid \o (IF a = k THEN <<>> ELSE Concat(end, 1, z)) \o <<93>>
(* ---- columns *)
RECURSIVE Grow(_, _, _, _)
Grow(ts, a, z, c) ==
  LET k == Len(ts) IN
  IF ~(a < k - z /\ (c + 2) * (a + z) < 750) THEN <<a, z, c>>
  ELSE LET c1 == Max2(c, Len(ts[a + 1]))
           more == a + 1 < k - z
       IN Grow(ts, a + 1, IF more THEN z + 1 ELSE z, IF more THEN Max2(c1, Len(ts[k - z])) ELSE c1)
(* elements from i to j in rows *)
Rows(ts, i, j, per, c, open) ==
  LET last == IF Old THEN j - 1 ELSE j
      one(q) == LET at == q - i IN
                (IF at % per = 0 THEN (IF at = 0 /\ open THEN <<91>> ELSE <<32>>) ELSE <<44, 32>>) \o Pad(ts[q], c)
                \o (IF at % per = per - 1 /\ q < last THEN NewLine ELSE <<>>)
  IN Concat([q \in i..j |-> one(q)], i, j)
Columns(ts, g) ==
  LET k == Len(ts)
      per == Max2(75 \div (g[3] + 2), IF Old THEN 0 ELSE 1)
      all == g[1] + g[2] = k
      a == IF all THEN k ELSE IF g[1] > per /\ g[1] % per # 0 THEN (g[1] \div per) * per ELSE g[1]
      z == IF all THEN 0 ELSE IF g[2] > per /\ g[2] % per # 0 THEN g[2] - (g[2] % per) ELSE g[2]
  IN (IF a = 0 THEN <<91>> ELSE <<>>) \o Rows(ts, 1, a, per, g[3], TRUE)
     \o (IF a # k THEN Ellipsis \o Rows(ts, k - z + 1, k, per, g[3], FALSE) ELSE <<>>) \o <<93>>
Dim(ts) ==
  LET k == Len(ts)
      a == Min2(7, k)
      z == k - Min2(k, Max2(k - 3, IF Old THEN a + 1 ELSE a))
      rows == SumLines(ts, 1, a) + SumLines(ts, k - z + 1, k)
      c == Max2(MaxLen(ts, 1, a), MaxLen(ts, k - z + 1, k))
  IN IF rows > a + z \/ c > 30
     THEN LET q == Trim(ts, a, z, rows) IN
          (* with nothing at the end the last in front goes there *)
          ByLine(ts, q[1], q[2], IF z = 0 /\ q[2] = 1 THEN a ELSE k - q[2] + 1)
     ELSE Columns(ts, Grow(ts, a, z, c))

(* ---- a dimension of n elements of width w, or n rows of m                 *)
RECURSIVE Digits(_, _)
Digits(i, k) == IF k = 0 THEN <<>> ELSE Append(Digits(i \div 10, k - 1), 48 + (i % 10))
Elem(i) == Digits(i * 7 + 1, w)
El == [k |-> "num"]
Vals == IF m = 0 THEN [i \in 1..n |-> IF i = x[1] THEN Digits(i, x[2]) ELSE Elem(i)] ELSE [i \in 1..n |-> [j \in 1..m |-> Elem(i * 13 + j)]]
Ty == IF m = 0 THEN [k |-> "dim", el |-> El] ELSE [k |-> "dim", el |-> [k |-> "dim", el |-> El]]
Texts == IF m = 0 THEN Vals ELSE [i \in 1..n |-> Dim(Vals[i])]
Text == Dim(Texts)
Init == \/ n \in 0..MaxN /\ m = 0 /\ w \in 1..MaxW /\ x = <<0, 0>>
        \/ n \in 1..13 /\ m \in MaxRows /\ w \in {1, 6, 18, 32} /\ x = <<0, 0>>
        \/ n \in {10, 11, 12, 13, 29, MaxN} /\ m = 0 /\ w \in {1, 5, 20} /\ x \in ({1, 7, 8, 9, n - 4, n - 3, n - 2, n} \X {2, 30, 31, 36, 72, 73, 74, 90})
Next == FALSE /\ UNCHANGED <<n, m, w, x>>
Reads == M(Ty, Vals, Text, 1) = Len(Text) + 1
(* what is read back is not something else: another value is not shown by this text *)
Other == IF m = 0 THEN [Vals EXCEPT ![1] = Digits(5, w)] ELSE Vals
Distinct == (m = 0 /\ n > 0) => M(Ty, Other, Text, 1) = 0
Emit == PrintT("GEN " \o ToJson([k |-> IF m = 0 THEN "grid" ELSE "rows", n |-> n, m |-> m, w |-> w, x |-> x]))
=============================================================================
