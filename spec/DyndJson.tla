------------------------------ MODULE DyndJson ------------------------------
(* JSON texts (sequences of bytes), the trees they denote, and what storing  *)
(* a tree in a value of a type means.                                        *)
EXTENDS DyndText

JNode(k, w, xs, ks, u) == [k |-> k, w |-> w, xs |-> xs, ks |-> ks, u |-> u]     \* u: what it denotes is left open
JBad == [ok |-> FALSE, at |-> 0, v |-> JNode("bad", <<>>, <<>>, <<>>, FALSE)]
JOk(at, v) == [ok |-> TRUE, at |-> at, v |-> v]

WS == {32, 9, 10, 13}
LooseWS == {11, 12}      \* not JSON, but accepted by many readers
RECURSIVE Skip(_, _)
Skip(b, i) == IF i <= Len(b) /\ b[i] \in WS THEN Skip(b, i + 1) ELSE i
HasAt(b, i, w) == i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w
CharAt(b, i, ch) == i <= Len(b) /\ b[i] = ch

(* ---- strings *)
JUtf8(cp) == IF cp < 128 THEN <<cp>>
             ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
             ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
             ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Hex(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE IF ch \in 97..102 THEN ch - 87 ELSE -1
Hex4(b, i) ==            \* the four digits from i on; -1 if they are none
  IF i + 3 <= Len(b) /\ \A k \in 0..3 : Hex(b[i + k]) >= 0
  THEN ((Hex(b[i]) * 16 + Hex(b[i + 1])) * 16 + Hex(b[i + 2])) * 16 + Hex(b[i + 3]) ELSE -1
Simple == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
RECURSIVE Chars(_, _, _, _)
(* the rest of a string from i on, acc read so far; u: something that JSON forbids or leaves open was met *)
Chars(b, i, acc, u) ==
  IF i > Len(b) THEN JBad
  ELSE IF b[i] = 34 THEN JOk(i + 1, JNode("str", acc, <<>>, <<>>, u))
  ELSE IF b[i] # 92 THEN Chars(b, i + 1, Append(acc, b[i]), u \/ b[i] < 32)
  ELSE IF i = Len(b) THEN JBad
  ELSE IF b[i + 1] \in DOMAIN Simple THEN Chars(b, i + 2, Append(acc, Simple[b[i + 1]]), u)
  ELSE IF b[i + 1] = 85 /\ Hex4(b, i + 2) >= 0 /\ Hex4(b, i + 6) >= 0 THEN Chars(b, i + 10, acc, TRUE)    \* an extension
  ELSE IF b[i + 1] # 117 \/ Hex4(b, i + 2) < 0 THEN JBad
  ELSE LET h == Hex4(b, i + 2)
           lo == IF CharAt(b, i + 6, 92) /\ CharAt(b, i + 7, 117) THEN Hex4(b, i + 8) ELSE -1
       IN IF h \in 55296..56319 /\ lo \in 56320..57343
          THEN Chars(b, i + 12, acc \o JUtf8(65536 + (h - 55296) * 1024 + lo - 56320), u)
          ELSE IF h \in 55296..57343 THEN Chars(b, i + 6, acc, TRUE)
          ELSE Chars(b, i + 6, acc \o JUtf8(h), u)

(* ---- numbers: an optional minus, 0 or digits without a leading 0, an optional fraction, an optional exponent *)
Num(b, i) ==
  LET i0 == IF CharAt(b, i, 45) THEN i + 1 ELSE i
      i1 == IF CharAt(b, i0, 48) THEN i0 + 1 ELSE Run(b, i0)
      f0 == IF CharAt(b, i1, 46) THEN i1 + 1 ELSE i1
      f1 == IF f0 > i1 THEN Run(b, f0) ELSE f0
      exp == f1 <= Len(b) /\ b[f1] \in {69, 101}
      e0 == IF exp /\ f1 + 1 <= Len(b) /\ b[f1 + 1] \in {43, 45} THEN f1 + 2 ELSE f1 + 1
      e1 == IF exp THEN Run(b, e0) ELSE f1
  IN IF i1 = i0 \/ (f0 > i1 /\ f1 = f0) \/ (exp /\ e1 = e0) THEN JBad
     ELSE JOk(e1, JNode("num", SubSeq(b, i, e1 - 1), <<>>, <<>>, FALSE))

(* ---- values *)
Lits == <<<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>>>
LitNames == <<"true", "false", "null">>
RECURSIVE JVal(_, _), Elems(_, _, _), Fields(_, _, _, _)
JVal(b, j) ==            \* the value that starts at j, after white space
  LET i == Skip(b, j) IN
  IF i > Len(b) THEN JBad
  ELSE IF b[i] = 34 THEN Chars(b, i + 1, <<>>, FALSE)
  ELSE IF b[i] = 45 \/ IsDigit(b[i]) THEN Num(b, i)
  ELSE IF b[i] = 91 THEN (IF CharAt(b, Skip(b, i + 1), 93) THEN JOk(Skip(b, i + 1) + 1, JNode("arr", <<>>, <<>>, <<>>, FALSE)) ELSE Elems(b, i + 1, <<>>))
  ELSE IF b[i] = 123 THEN (IF CharAt(b, Skip(b, i + 1), 125) THEN JOk(Skip(b, i + 1) + 1, JNode("obj", <<>>, <<>>, <<>>, FALSE)) ELSE Fields(b, i + 1, <<>>, <<>>))
  ELSE LET S == {k \in 1..3 : HasAt(b, i, Lits[k])} IN
       IF S = {} THEN JBad ELSE LET k == CHOOSE k \in S : TRUE IN JOk(i + Len(Lits[k]), JNode(LitNames[k], <<>>, <<>>, <<>>, FALSE))
Elems(b, i, xs) ==
  LET e == JVal(b, i) IN
  IF ~e.ok THEN JBad
  ELSE LET s == Skip(b, e.at) IN
       IF CharAt(b, s, 44) THEN Elems(b, s + 1, Append(xs, e.v))
       ELSE IF CharAt(b, s, 93) THEN JOk(s + 1, JNode("arr", <<>>, Append(xs, e.v), <<>>, FALSE))
       ELSE JBad
Fields(b, i, xs, ks) ==
  LET q == Skip(b, i) IN
  IF ~CharAt(b, q, 34) THEN JBad
  ELSE LET n == Chars(b, q + 1, <<>>, FALSE) IN
  IF ~n.ok THEN JBad
  ELSE LET col == Skip(b, n.at) IN
  IF ~CharAt(b, col, 58) THEN JBad
  ELSE LET e == JVal(b, col + 1) IN
  IF ~e.ok THEN JBad
  ELSE LET s == Skip(b, e.at)
           xs1 == Append(xs, e.v)
           ks1 == Append(ks, [w |-> n.v.w, u |-> n.v.u]) IN
       IF CharAt(b, s, 44) THEN Fields(b, s + 1, xs1, ks1)
       ELSE IF CharAt(b, s, 125) THEN JOk(s + 1, JNode("obj", <<>>, xs1, ks1, FALSE))
       ELSE JBad
Document(b) == LET e == JVal(b, 1) IN IF e.ok /\ Skip(b, e.at) = Len(b) + 1 THEN e ELSE JBad
RECURSIVE Open(_)
Open(v) == v.u \/ (\E i \in DOMAIN v.xs : Open(v.xs[i])) \/ \E i \in DOMAIN v.ks : v.ks[i].u
(* a text that is no JSON, but that a lenient reader may accept *)
Lenient(b) == \E i \in DOMAIN b : b[i] \in LooseWS

(* ---- a tree in a value of type t: "no" error, "may" be one, or "yes".     *)
Worst(S) == IF "yes" \in S THEN "yes" ELSE IF "may" \in S THEN "may" ELSE "no"
NumErr(n, w, mode) == LET f == FromText(Types[n], w, mode) IN IF f.err = "any" THEN "may" ELSE f.err
Odd8(w) == \E i \in DOMAIN w : w[i] > 127
At1(v, name) == {i \in DOMAIN v.ks : v.ks[i].w = name}
Unclear(v, name) == Cardinality(At1(v, name)) > 1 \/ \E i \in DOMAIN v.ks : v.ks[i].u
RECURSIVE JErr(_, _, _)
JErr(t, v, mode) ==
  IF v.u THEN "may"
  ELSE CASE t.k = "num" ->
         (IF t.n = "bool" THEN
            (CASE v.k \in {"true", "false"} -> "no"
               [] v.k = "null" -> (IF mode = "nocheck" THEN "may" ELSE "yes")
               [] v.k = "num" -> (IF v.w \in {<<48>>, <<49>>} THEN "no"
                                  ELSE LET p == Parse(v.w) IN
                                       IF mode = "nocheck" \/ (~Extreme(p) /\ (IsZero(Denotes(p)) \/ SameValue(Denotes(p), One))) THEN "may" ELSE "yes")
               [] v.k = "str" -> NumErr("bool", v.w, mode)
               [] OTHER -> "yes")
          ELSE IF mode = "callable" /\ v.k = "str" THEN "may"
          ELSE IF v.k \in {"num", "str"} THEN (IF v.k = "str" /\ Odd8(v.w) THEN (IF mode = "nocheck" THEN "may" ELSE "yes") ELSE NumErr(t.n, v.w, mode))
          ELSE IF mode = "nocheck" THEN "may" ELSE "yes")
    [] t.k = "str" -> IF v.k = "str" THEN "no" ELSE "yes"
    [] t.k = "fstr" -> IF v.k # "str" THEN "yes" ELSE IF Odd8(v.w) THEN "may" ELSE IF Len(v.w) <= t.n THEN "no" ELSE IF mode = "nocheck" THEN "may" ELSE "yes"
    [] t.k = "opt" -> IF v.k = "null" THEN "no"
                      ELSE IF t.of.k = "num" /\ v.k = "str" /\ IsNAWord(v.w) THEN (IF mode = "callable" THEN "may" ELSE "no")
                      ELSE IF t.of.k # "num" THEN (IF v.k = "str" THEN "no" ELSE "yes")
                      ELSE LET e == JErr(t.of, v, mode) IN
                           IF e = "no" /\ v.k \in {"num", "str"} /\ TextOk(Types[t.of.n], v.w, mode, NA(Types[t.of.n])) THEN "may" ELSE e
    [] t.k = "fix" -> IF v.k # "arr" THEN "yes" ELSE IF Len(v.xs) # t.n THEN "yes" ELSE Worst({JErr(t.of, v.xs[i], mode) : i \in DOMAIN v.xs})
    [] t.k = "var" -> IF v.k # "arr" THEN "yes" ELSE Worst({JErr(t.of, v.xs[i], mode) : i \in DOMAIN v.xs})
    [] t.k \in {"rec", "tup"} ->
         IF v.k = "arr" THEN IF Len(v.xs) # Len(t.fs) \/ mode = "callable" THEN "yes" ELSE Worst({JErr(t.fs[i], v.xs[i], mode) : i \in DOMAIN v.xs})
         ELSE IF t.k = "tup" \/ v.k # "obj" THEN "yes"
         ELSE Worst({IF Unclear(v, t.names[i]) THEN "may"
                     ELSE IF At1(v, t.names[i]) = {} THEN (IF t.fs[i].k = "opt" THEN "no" ELSE "yes")
                     ELSE JErr(t.fs[i], v.xs[CHOOSE j \in At1(v, t.names[i]) : TRUE], mode) : i \in DOMAIN t.fs})

(* ---- o, a value read back from memory, is what the tree denotes *)
RECURSIVE JGood(_, _, _, _)
JGood(t, v, o, mode) ==
  IF v.u THEN TRUE
  ELSE CASE t.k = "num" ->
         o.k = "num" /\ (IF v.k = "true" THEN SameValue(Decode(Types[t.n], o.b), One)
                         ELSE IF v.k = "false" THEN SameValue(Decode(Types[t.n], o.b), Zero(0))
                         ELSE IF v.k \in {"num", "str"} THEN (IF t.n = "bool" /\ v.k = "num" /\ v.w \notin {<<48>>, <<49>>} THEN TRUE ELSE TextOk(Types[t.n], v.w, mode, o.b))
                         ELSE TRUE)
    [] t.k \in {"str", "fstr"} -> /\ o.k = "str"
                                /\ \/ o.b = v.w
                                   \/ mode = "callable" /\ 92 \in {o.b[i] : i \in DOMAIN o.b}
                                   \/ t.k = "fstr" /\ (Odd8(v.w) \/ Len(v.w) > t.n \/ \E i \in DOMAIN v.w : v.w[i] = 0)
    [] t.k = "opt" -> IF v.k = "null" THEN (o.k = "na" \/ t.of.k # "num")
                      ELSE IF t.of.k # "num" THEN (IsNAWord(v.w) \/ (o.k = "str" /\ o.b = v.w))
                      ELSE IF v.k = "str" /\ IsNAWord(v.w) THEN o.k = "na"
                      ELSE (o.k = "na" /\ v.k \in {"num", "str"} /\ TextOk(Types[t.of.n], v.w, mode, NA(Types[t.of.n])))
                           \/ (o.k # "na" /\ JGood(t.of, v, o, mode))
    [] t.k \in {"fix", "var"} -> o.k = "list" /\ Len(o.xs) = Len(v.xs) /\ \A i \in DOMAIN v.xs : JGood(t.of, v.xs[i], o.xs[i], mode)
    [] t.k \in {"rec", "tup"} ->
         /\ o.k = "list" /\ Len(o.xs) = Len(t.fs)
         /\ \A i \in DOMAIN t.fs :
              IF v.k = "arr" THEN JGood(t.fs[i], v.xs[i], o.xs[i], mode)
              ELSE IF Unclear(v, t.names[i]) THEN TRUE
              ELSE IF At1(v, t.names[i]) = {} THEN (o.xs[i].k = "na" \/ t.fs[i].of.k # "num")
              ELSE JGood(t.fs[i], v.xs[CHOOSE j \in At1(v, t.names[i]) : TRUE], o.xs[i], mode)

(* ---- the tree has the form in which values of the type are written *)
RECURSIVE Form(_, _, _, _)
Form(t, v, o, aslist) ==
  CASE t.k = "num" -> IF t.n = "bool" THEN v.k \in {"true", "false"}
                      ELSE IF Types[t.n].k = "flt" /\ Decode(Types[t.n], o.b).k \in {"nan", "inf"} THEN TRUE ELSE v.k = "num"
    [] t.k \in {"str", "fstr"} -> v.k = "str"
    [] t.k = "opt" -> IF t.of.k = "num" THEN (IF o.k = "na" THEN v.k = "null" ELSE Form(t.of, v, o, aslist)) ELSE TRUE
    [] t.k \in {"fix", "var"} -> v.k = "arr" /\ Len(v.xs) = Len(o.xs) /\ \A i \in DOMAIN v.xs : Form(t.of, v.xs[i], o.xs[i], aslist)
    [] t.k = "tup" -> v.k = "arr" /\ Len(v.xs) = Len(t.fs) /\ \A i \in DOMAIN v.xs : Form(t.fs[i], v.xs[i], o.xs[i], aslist)
    [] t.k = "rec" -> /\ Len(v.xs) = Len(t.fs)
                      /\ IF aslist THEN v.k = "arr" ELSE v.k = "obj" /\ \A i \in DOMAIN t.fs : v.ks[i].w = t.names[i]
                      /\ \A i \in DOMAIN v.xs : Form(t.fs[i], v.xs[i], o.xs[i], aslist)
=============================================================================
