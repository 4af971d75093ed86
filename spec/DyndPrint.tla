------------------------------ MODULE DyndPrint -----------------------------
(* The text shown for a value.  A type is a tree: [k |-> "num"] (value: its  *)
(* text in decimal), "bool", "str" (value: code points), "bytes", "opt"      *)
(* (value: <<>> or <<value>>), "rec" with fs, "dim" with el.                 *)
(* Texts are lists of bytes.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexOf(_, _)
HexOf(n, w) == IF w = 0 THEN <<>> ELSE Append(HexOf(n \div 16, w - 1), HexDigit(n % 16))
Escape(cp) ==
  CASE cp = 8 -> <<92, 98>> [] cp = 12 -> <<92, 102>> [] cp = 10 -> <<92, 110>> [] cp = 13 -> <<92, 114>> [] cp = 9 -> <<92, 116>>
    [] cp = 92 -> <<92, 92>> [] cp = 34 -> <<92, 34>>
    [] cp < 32 \/ (cp > 126 /\ cp < 65536) -> <<92, 117>> \o HexOf(cp, 4)
    [] cp >= 65536 -> <<92, 85>> \o HexOf(cp, 8)
    [] OTHER -> <<cp>>
RECURSIVE Escaped(_)
Escaped(cps) == IF cps = <<>> THEN <<>> ELSE Escape(Head(cps)) \o Escaped(Tail(cps))
RECURSIVE HexBytes(_)
HexBytes(b) == IF b = <<>> THEN <<>> ELSE HexOf(Head(b), 2) \o HexBytes(Tail(b))
True == <<84, 114, 117, 101>>
False == <<70, 97, 108, 115, 101>>
Na == <<78, 65>>
Null == <<78, 85, 76, 76>>
Dots == <<46, 46, 46>>
Scalar(T) == T.k \in {"num", "bool", "str", "bytes"}
ShowLeaf(T, v) ==
  CASE T.k = "num" -> v
    [] T.k = "bool" -> (IF v = <<1>> THEN True ELSE False)
    [] T.k = "str" -> <<34>> \o Escaped(v) \o <<34>>
    [] T.k = "bytes" -> (IF v = <<>> THEN Null ELSE HexBytes(v))

(* ---- reading what was shown; positions, 0 for failure *)
Blank(s, i) == i <= Len(s) /\ s[i] \in {32, 10}
RECURSIVE Skip(_, _)
Skip(s, i) == IF i > 0 /\ Blank(s, i) THEN Skip(s, i + 1) ELSE i
Lit(s, i, t) == IF i > 0 /\ i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t THEN i + Len(t) ELSE 0
At(s, i) == IF i > 0 /\ i <= Len(s) THEN s[i] ELSE 0
(* a dimension of few short elements is shown in full *)
RECURSIVE Width(_, _)
Width(T, v) == IF T.k = "opt" THEN (IF v = <<>> THEN 2 ELSE Width(T.el, v[1])) ELSE Len(ShowLeaf(T, v))
Short(T, v) == \/ Len(v) <= 7 /\ (T.el.k # "dim" /\ T.el.k # "rec")
               \/ /\ Len(v) <= 10
                  /\ Scalar(T.el) \/ (T.el.k = "opt" /\ Scalar(T.el.el))
                  /\ \A i \in DOMAIN v : Width(T.el, v[i]) <= 30
RECURSIVE M(_, _, _, _), Fields(_, _, _, _, _), Lead(_, _, _, _, _), Trail(_, _, _, _, _)
(* the position after value v of type T, shown from i on *)
M(T, v, s, i) ==
  LET p == Skip(s, i) IN
  CASE Scalar(T) -> Lit(s, p, ShowLeaf(T, v))
    [] T.k = "opt" -> (IF v = <<>> THEN Lit(s, p, Na) ELSE M(T.el, v[1], s, p))
    [] T.k = "rec" -> (IF At(s, p) # 91 THEN 0 ELSE Fields(T.fs, v, s, p + 1, 1))
    [] T.k = "dim" -> (IF At(s, p) # 91 THEN 0
                       ELSE IF v = <<>> THEN Lit(s, Skip(s, p + 1), <<93>>)
                       ELSE Lead(T, v, s, M(T.el, v[1], s, p + 1), 1))
Fields(fs, v, s, i, j) ==
  IF i = 0 THEN 0
  ELSE IF j > Len(fs) THEN Lit(s, Skip(s, i), <<93>>)
  ELSE LET q == IF j = 1 THEN i ELSE Lit(s, Skip(s, i), <<44>>) IN
       IF q = 0 THEN 0 ELSE Fields(fs, v, s, M(fs[j], v[j], s, q), j + 1)
(* i: after the j-th element of v *)
Lead(T, v, s, i, j) ==
  IF i = 0 THEN 0
  ELSE LET p == Skip(s, i) IN
       IF At(s, p) = 93 THEN (IF j = Len(v) THEN p + 1 ELSE 0)
       ELSE IF At(s, p) # 44 \/ j >= Len(v) THEN 0
       ELSE LET q == Skip(s, p + 1) IN
            IF Lit(s, q, Dots) # 0
            THEN IF Short(T, v) THEN 0
                 ELSE LET ends == {Trail(T, v, s, Skip(s, q + 3), k) : k \in 0..(Len(v) - j - 1)} \ {0} IN
                      IF ends = {} THEN 0 ELSE CHOOSE e \in ends : TRUE
            ELSE Lead(T, v, s, M(T.el, v[j + 1], s, q), j + 1)
(* the last k elements, from i on *)
Trail(T, v, s, i, k) ==
  IF i = 0 THEN 0
  ELSE IF k = 0 THEN Lit(s, i, <<93>>)
  ELSE LET e == M(T.el, v[Len(v) - k + 1], s, i) IN
       IF e = 0 THEN 0
       ELSE IF k = 1 THEN Lit(s, Skip(s, e), <<93>>)
       ELSE LET c == Lit(s, Skip(s, e), <<44>>) IN IF c = 0 THEN 0 ELSE Trail(T, v, s, Skip(s, c), k - 1)
(* the whole text: array(VALUE, type="TYPE") *)
Opening == <<97, 114, 114, 97, 121, 40>>
TypeIs == <<116, 121, 112, 101, 61, 34>>
Shown(T, v, tp, s) ==
  LET a == Lit(s, 1, Opening)
      b == IF a = 0 THEN 0 ELSE M(T, v, s, a)
      c == IF b = 0 THEN 0 ELSE Lit(s, Skip(s, b), <<44>>)
  IN c # 0 /\ Lit(s, Skip(s, c), TypeIs \o tp \o <<34, 41>>) = Len(s) + 1
=============================================================================
