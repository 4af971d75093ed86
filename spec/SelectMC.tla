------------------------------ MODULE SelectMC ------------------------------
(* Ranges walked one step at a time, elements taken one at a time and the     *)
(* result of an outer call filled by an odometer, against the definitions.   *)
(* Every beginning is a case to replay.                                      *)
EXTENDS DyndSelect, Json
CONSTANTS W,        \* the bits of the small integer types
          MaxLen    \* of masks and lists of places

VARIABLES part, q, st, out
IX(n) == IF n < 0 THEN Neg1(NatX(0 - n)) ELSE NatX(n)
Held(sg) == IF sg = 1 THEN (0 - Pow(W - 1))..(Pow(W - 1) - 1) ELSE 0..(Pow(W) - 1)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Sizes == {<<>>} \cup {<<a>> : a \in 0..2} \cup {<<a, b>> : a, b \in 0..2}
Shapes == {<<a>> : a \in Sizes} \cup {<<a, b>> : a, b \in Sizes} \cup {s \in [1..3 -> {<<>>, <<0>>, <<1>>, <<2>>}] : TRUE}
(* the operand of a shape, numbered row by row *)
Operand(s) == CASE Len(s) = 0 -> 3
                [] Len(s) = 1 -> [i \in 1..s[1] |-> i]
                [] Len(s) = 2 -> [i \in 1..s[1] |-> [j \in 1..s[2] |-> s[2] * (i - 1) + j]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Flat(_, _)
Flat(v, d) == IF d = 0 THEN <<v>> ELSE Cat([i \in 1..Len(v) |-> Flat(v[i], d - 1)])

Init == \/ part = "range" /\ (\E sg \in {0, 1} : q \in [sg : {sg}, b : Held(sg), e : Held(sg), s : Held(sg)]) /\ st = q.b /\ out = <<>>
        \/ part = "mask" /\ q \in Seqs({0, 1}, MaxLen) /\ st = 1 /\ out = <<>>
        \/ part = "place" /\ (\E n \in 0..3 : q \in [n : {n}, ix : Seqs((0 - n - 1)..n, 3)]) /\ st = 1 /\ out = <<>>
        \/ part = "outer" /\ q \in Shapes /\ st = [i \in DOMAIN Cat(q) |-> 1] /\ out = <<>>
(* ---- one step *)
Ahead(x) == IF q.s > 0 THEN x < q.e ELSE x > q.e
Walk == /\ part = "range" /\ q.s # 0 /\ Ahead(st)
        /\ out' = Append(out, st) /\ st' = st + q.s /\ UNCHANGED <<part, q>>
Mask == /\ part = "mask" /\ st <= Len(q)
        /\ out' = (IF q[st] = 1 THEN Append(out, 10 * st) ELSE out) /\ st' = st + 1 /\ UNCHANGED <<part, q>>
In(i) == IF i < 0 THEN i + q.n >= 0 ELSE i < q.n
At(i) == 10 * (IF i < 0 THEN i + q.n + 1 ELSE i + 1)
Pick == /\ part = "place" /\ st > 0 /\ st <= Len(q.ix)
        /\ IF In(q.ix[st]) THEN out' = Append(out, At(q.ix[st])) /\ st' = st + 1 ELSE out' = <<>> /\ st' = -1
        /\ UNCHANGED <<part, q>>
(* the odometer: the last dimension turns fastest *)
Ends == Cat(q)
Full == (\E i \in DOMAIN Ends : Ends[i] = 0) \/ \E i \in DOMAIN st : st[i] > Ends[i]
RECURSIVE Turn(_, _)
Turn(s, i) == IF i = 1 THEN [s EXCEPT ![1] = @ + 1]
              ELSE IF s[i] < Ends[i] THEN [s EXCEPT ![i] = @ + 1] ELSE Turn([s EXCEPT ![i] = 1], i - 1)
RECURSIVE OffOf(_)
OffOf(k) == IF k = 1 THEN 0 ELSE OffOf(k - 1) + Len(q[k - 1])
Elem(k) == LET v == Operand(q[k])
               o == OffOf(k)
           IN CASE Len(q[k]) = 0 -> v [] Len(q[k]) = 1 -> v[st[o + 1]] [] Len(q[k]) = 2 -> v[st[o + 1]][st[o + 2]]
Fill == /\ part = "outer" /\ ~Full /\ (Len(Ends) > 0 \/ out = <<>>)
        /\ out' = Append(out, Fun([k \in DOMAIN q |-> Elem(k)]))
        /\ st' = (IF Len(Ends) = 0 THEN st ELSE Turn(st, Len(Ends)))
        /\ UNCHANGED <<part, q>>
Next == Walk \/ Mask \/ Pick \/ Fill
Spec == Init /\ [][Next]_<<part, q, st, out>>

(* ---- the definitions give what the steps end with *)
RangeT == IntT(W, q.sg)
RangeDone == part = "range" =>
  LET w == HowMany(RangeT, IX(q.b), IX(q.e), IX(q.s)) IN
  IF q.s = 0 THEN w.err = "yes"
  ELSE /\ w.err = "no"
       /\ (~Ahead(st) => SmallVal(w.v, 0) = Len(out))
       /\ \A i \in DOMAIN out : IsElement(RangeT, IX(q.b), IX(q.s), i - 1, IX(out[i])) /\ InRange(RangeT, IX(out[i]))
       /\ ~IsElement(RangeT, IX(q.b), IX(q.s), Len(out), IX(st + 1))
MaskDone == part = "mask" =>
  LET a == [i \in 1..Len(q) |-> 10 * i] IN
  /\ out = TakeMask(SubSeq(a, 1, st - 1), SubSeq(q, 1, st - 1))
  /\ \A i \in 1..(Len(out) - 1) : out[i] < out[i + 1]
PlaceDone == part = "place" =>
  LET a == [i \in 1..q.n |-> 10 * i] IN
  /\ (st = -1 => ~Inside(q.n, q.ix))
  /\ (st > Len(q.ix) => Inside(q.n, q.ix) /\ out = TakeAt(a, q.ix))
OuterDone == part = "outer" /\ ~ENABLED Fill =>
  out = Flat(Outer([k \in DOMAIN q |-> Operand(q[k])], [k \in DOMAIN q |-> Len(q[k])], 1), Len(Ends))
(* composing is associative *)
ASSUME \A f1, g1, h1 \in 0..3 : \A x \in -3..3 :
  LET L(z) == [f |-> z] IN
  Chain([l |-> [l |-> L(f1), r |-> L(g1)], r |-> L(h1)], x) = Chain([l |-> L(f1), r |-> [l |-> L(g1), r |-> L(h1)]], x)
(* floating point ranges: within a small type, whatever the step, a multiple of it away there are as many elements *)
ASSUME \A b \in -3..3, s \in {-3, -2, -1, 1, 2, 5}, n \in 1..6, k \in {-2, 0} :
  LET ff(x) == ScaleX(IX(x), k) IN HowMany(FltT(24, 8), ff(b), ff(b + n * s), ff(s)) = Out(NatBits(n))
Begin == CASE part = "range" -> st = q.b /\ out = <<>> [] part = "mask" -> st = 1 [] part = "place" -> st = 1 [] part = "outer" -> out = <<>> /\ \A i \in DOMAIN st : st[i] = 1
Emit == Begin => PrintT("GEN " \o ToJson([k |-> part, q |-> q]))
=============================================================================
