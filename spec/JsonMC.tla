------------------------------- MODULE JsonMC -------------------------------
(* A machine that reads JSON one character at a time with a stack, against   *)
(* the grammar of DyndJson: for every text built from the pieces both must   *)
(* agree on whether it is a document, a text the machine gives up on must    *)
(* have no valid continuation among the pieces, and what the trees denote    *)
(* for types must survive white space, writing and reading again.            *)
EXTENDS DyndJson, Json
CONSTANTS Pieces, MaxPieces, Typed
TreePieces == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<34,97,34,58>>, <<34,98,34,58>>, <<49>>, <<45,50>>, <<110,117,108,108>>, <<34,120,34>>}
StringsPieces == {<<34>>, <<92>>, <<117>>, <<110>>, <<48,48,101,57>>, <<92,117,68,56,48,48>>, <<92,117,100,99,48,49>>, <<92,117,48,48,52,49>>, <<97>>, <<195,169>>}
NumbersPieces == {<<45>>, <<48>>, <<49>>, <<46>>, <<101>>, <<43>>, <<32>>, <<44>>, <<116,114,117,101>>, <<91>>}
VARIABLES text, s, np
vars == <<text, s, np>>

Dead == [m |-> "bad", stk |-> <<>>, key |-> FALSE, left |-> 0, lit |-> <<>>, us |-> <<>>, h |-> 0]
Start == [Dead EXCEPT !.m = "val"]
AfterValue(q) == [q EXCEPT !.m = IF q.stk = <<>> THEN "end" ELSE "after"]
Pop(q) == AfterValue([q EXCEPT !.stk = SubSeq(q.stk, 1, Len(q.stk) - 1)])
Push(q, ch, m) == [q EXCEPT !.stk = Append(q.stk, ch), !.m = m]
Str(q, key) == [q EXCEPT !.m = "str", !.key = key, !.us = <<>>]
Lit(q, w) == [q EXCEPT !.m = "lit", !.lit = w]
Pos == 49..57
Raw == 2000000           \* marks bytes that are not code points
RECURSIVE StepChar(_, _)
StepChar(q, ch) ==
  LET ends(m) == StepChar(AfterValue(q), ch)       \* the number was over before this character
      to(m) == [q EXCEPT !.m = m] IN
  CASE q.m \in {"val", "first"} ->
         (CASE ch \in WS -> q
            [] ch = 34 -> Str(q, FALSE)
            [] ch = 45 -> to("minus")
            [] ch = 48 -> to("zero")
            [] ch \in Pos -> to("int")
            [] ch = 91 -> Push(q, 91, "first")
            [] ch = 123 -> Push(q, 123, "firstkey")
            [] ch = 93 /\ q.m = "first" -> Pop(q)
            [] ch = 116 -> Lit(q, <<114, 117, 101>>)
            [] ch = 102 -> Lit(q, <<97, 108, 115, 101>>)
            [] ch = 110 -> Lit(q, <<117, 108, 108>>)
            [] OTHER -> Dead)
    [] q.m \in {"firstkey", "key"} ->
         (CASE ch \in WS -> q
            [] ch = 34 -> Str(q, TRUE)
            [] ch = 125 /\ q.m = "firstkey" -> Pop(q)
            [] OTHER -> Dead)
    [] q.m = "colon" -> IF ch \in WS THEN q ELSE IF ch = 58 THEN to("val") ELSE Dead
    [] q.m = "after" ->
         LET top == q.stk[Len(q.stk)] IN
         (CASE ch \in WS -> q
            [] ch = 44 -> to(IF top = 91 THEN "val" ELSE "key")
            [] ch = 93 /\ top = 91 -> Pop(q)
            [] ch = 125 /\ top = 123 -> Pop(q)
            [] OTHER -> Dead)
    [] q.m = "end" -> IF ch \in WS THEN q ELSE Dead
    [] q.m = "str" -> (CASE ch = 34 -> (IF q.key THEN to("colon") ELSE AfterValue(q))
                         [] ch = 92 -> to("esc")
                         [] OTHER -> [q EXCEPT !.us = Append(q.us, Raw + ch)])
    [] q.m = "esc" -> IF ch = 117 THEN [q EXCEPT !.m = "u", !.left = 4, !.h = 0]
                      ELSE IF ch \in DOMAIN Simple THEN [q EXCEPT !.m = "str", !.us = Append(q.us, Simple[ch])] ELSE Dead
    [] q.m = "u" -> IF Hex(ch) < 0 THEN Dead
                    ELSE IF q.left > 1 THEN [q EXCEPT !.left = q.left - 1, !.h = 16 * q.h + Hex(ch)]
                    ELSE [q EXCEPT !.m = "str", !.us = Append(q.us, 16 * q.h + Hex(ch))]
    [] q.m = "lit" -> IF ch # q.lit[1] THEN Dead
                      ELSE IF Len(q.lit) = 1 THEN AfterValue(q) ELSE [q EXCEPT !.lit = Tail(q.lit)]
    [] q.m = "minus" -> IF ch = 48 THEN to("zero") ELSE IF ch \in Pos THEN to("int") ELSE Dead
    [] q.m \in {"zero", "int"} -> IF q.m = "int" /\ IsDigit(ch) THEN q ELSE IF ch = 46 THEN to("dot") ELSE IF ch \in {69, 101} THEN to("e") ELSE ends(0)
    [] q.m = "dot" -> IF IsDigit(ch) THEN to("frac") ELSE Dead
    [] q.m = "frac" -> IF IsDigit(ch) THEN q ELSE IF ch \in {69, 101} THEN to("e") ELSE ends(0)
    [] q.m = "e" -> IF ch \in {43, 45} THEN to("es") ELSE IF IsDigit(ch) THEN to("exp") ELSE Dead
    [] q.m = "es" -> IF IsDigit(ch) THEN to("exp") ELSE Dead
    [] q.m = "exp" -> IF IsDigit(ch) THEN q ELSE ends(0)
    [] OTHER -> Dead
RECURSIVE StepAll(_, _)
StepAll(q, w) == IF w = <<>> THEN q ELSE StepAll(StepChar(q, w[1]), Tail(w))
Complete(q) == q.m = "end" \/ (q.stk = <<>> /\ q.m \in {"zero", "int", "frac", "exp"})

Init == text = <<>> /\ s = Start /\ np = 0
Next == np < MaxPieces /\ s.m # "bad" /\ \E p \in Pieces : text' = text \o p /\ s' = StepAll(s, p) /\ np' = np + 1

Doc == Document(text)
Agree == Complete(s) <=> Doc.ok
NoWay == s.m = "bad" => \A p \in Pieces : ~Document(text \o p).ok
(* a string alone: the code points the machine met *)
RECURSIVE Points(_)
Points(us) == IF us = <<>> THEN <<>>
              ELSE IF us[1] \in 55296..56319 /\ Len(us) > 1 /\ us[2] \in 56320..57343
                   THEN JUtf8(65536 + (us[1] - 55296) * 1024 + us[2] - 56320) \o Points(Tail(Tail(us)))
                   ELSE (IF us[1] >= Raw THEN <<us[1] - Raw>> ELSE IF us[1] < 128 THEN <<us[1]>> ELSE JUtf8(us[1])) \o Points(Tail(us))
Text1 == Complete(s) /\ Doc.v.k = "str" /\ ~Doc.v.u => Doc.v.w = Points(s.us)
Lone == \E i \in DOMAIN s.us : s.us[i] \in 55296..57343
Text2 == Complete(s) /\ Doc.v.k = "str" => (Doc.v.u => Lone)
(* white space between the pieces of structure changes nothing *)
RECURSIVE Spread(_, _)
Spread(b, instr) ==
  IF b = <<>> THEN <<32>>
  ELSE IF instr THEN (IF b[1] = 92 /\ Len(b) > 1 THEN SubSeq(b, 1, 2) \o Spread(Tail(Tail(b)), TRUE) ELSE <<b[1]>> \o Spread(Tail(b), b[1] # 34))
  ELSE IF b[1] = 34 THEN <<34>> \o Spread(Tail(b), TRUE)
  ELSE IF b[1] \in {91, 93, 123, 125, 44, 58} THEN <<32, b[1], 10>> \o Spread(Tail(b), FALSE)
  ELSE <<b[1]>> \o Spread(Tail(b), FALSE)
White == Doc.ok => Document(Spread(text, FALSE)).ok /\ Document(Spread(text, FALSE)).v = Doc.v

(* ---- types *)
I8 == [k |-> "num", n |-> "int8"]
O8 == [k |-> "opt", of |-> I8]
S == [k |-> "str"]
A == <<97>>  B == <<98>>
Ts == {I8, O8, S, [k |-> "fix", n |-> 1, of |-> I8], [k |-> "fix", n |-> 2, of |-> S], [k |-> "var", of |-> O8], [k |-> "var", of |-> [k |-> "var", of |-> I8]],
       [k |-> "rec", names |-> <<A, B>>, fs |-> <<I8, O8>>], [k |-> "rec", names |-> <<A>>, fs |-> <<[k |-> "var", of |-> S]>>],
       [k |-> "tup", fs |-> <<I8, S>>], [k |-> "var", of |-> [k |-> "rec", names |-> <<B>>, fs |-> <<O8>>]]}
Byte(x) == LET m == IF x.m = <<>> THEN 0 ELSE LET bs == EncodeBits(Types["int8"], x) IN
                    bs[1] * 128 + bs[2] * 64 + bs[3] * 32 + bs[4] * 16 + bs[5] * 8 + bs[6] * 4 + bs[7] * 2 + bs[8] IN <<m>>
RECURSIVE Build(_, _), Render(_, _, _)
Build(t, v) ==                        \* the value a tree denotes, if it denotes one
  CASE t.k = "num" -> [k |-> "num", b |-> Byte(Denotes(Parse(v.w)))]
    [] t.k = "str" -> [k |-> "str", b |-> v.w]
    [] t.k = "opt" -> IF v.k = "null" \/ (v.k = "str" /\ IsNAWord(v.w)) THEN [k |-> "na"] ELSE Build(t.of, v)
    [] t.k \in {"fix", "var"} -> [k |-> "list", xs |-> [i \in DOMAIN v.xs |-> Build(t.of, v.xs[i])]]
    [] OTHER -> [k |-> "list", xs |-> [i \in DOMAIN t.fs |->
                  IF v.k = "arr" THEN Build(t.fs[i], v.xs[i])
                  ELSE IF At1(v, t.names[i]) = {} THEN [k |-> "na"]
                  ELSE Build(t.fs[i], v.xs[CHOOSE j \in At1(v, t.names[i]) : TRUE])]]
Digits3(x) == IF x > 99 THEN <<48 + x \div 100, 48 + ((x \div 10) % 10), 48 + (x % 10)>> ELSE IF x > 9 THEN <<48 + x \div 10, 48 + (x % 10)>> ELSE <<48 + x>>
Quoted(w) == <<34>> \o w \o <<34>>     \* the pieces have no string that needs escapes
RECURSIVE Commas(_)
Commas(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<44>> \o Commas(Tail(p))
Render(t, o, aslist) ==
  CASE t.k = "num" -> IF o.b[1] > 127 THEN <<45>> \o Digits3(256 - o.b[1]) ELSE Digits3(o.b[1])
    [] t.k = "str" -> Quoted(o.b)
    [] t.k = "opt" -> IF o.k = "na" THEN <<110, 117, 108, 108>> ELSE Render(t.of, o, aslist)
    [] t.k = "rec" /\ ~aslist -> <<123>> \o Commas([i \in DOMAIN t.fs |-> Quoted(t.names[i]) \o <<58>> \o Render(t.fs[i], o.xs[i], aslist)]) \o <<125>>
    [] OTHER -> <<91>> \o Commas([i \in DOMAIN o.xs |-> Render(IF t.k \in {"fix", "var"} THEN t.of ELSE t.fs[i], o.xs[i], aslist)]) \o <<93>>
RECURSIVE Changed(_, _)
(* the value with one leaf changed, or the same if there is none to change *)
Changed(t, o) ==
  CASE o.k = "na" -> [k |-> "num", b |-> <<7>>]
    [] o.k = "num" -> [o EXCEPT !.b = <<(o.b[1] + 1) % 256>>]
    [] o.k = "str" -> [o EXCEPT !.b = Append(o.b, 120)]
    [] o.k = "list" -> IF o.xs = <<>> THEN [o EXCEPT !.xs = <<[k |-> "num", b |-> <<7>>]>>]
                       ELSE [o EXCEPT !.xs[Len(o.xs)] = Changed(t, o.xs[Len(o.xs)])]
Holds ==
  Typed /\ Doc.ok /\ ~Open(Doc.v) =>
    \A t \in Ts : JErr(t, Doc.v, "fractional") = "no" =>
      LET o == Build(t, Doc.v) IN
      /\ JGood(t, Doc.v, o, "fractional")
      /\ ~JGood(t, Doc.v, Changed(t, o), "fractional")
      /\ \A aslist \in {TRUE, FALSE} :
           LET d == Document(Render(t, o, aslist)) IN
           /\ d.ok /\ Form(t, d.v, o, aslist)
           /\ JErr(t, d.v, "fractional") # "yes" /\ JGood(t, d.v, o, "fractional")
Emit == (Doc.ok \/ s.m = "bad" \/ np = MaxPieces) => PrintT("GEN " \o ToJson([t |-> text, ok |-> IF Doc.ok THEN 1 ELSE 0]))
=============================================================================
