------------------------------ MODULE DyndCall ------------------------------
(* Overload sets and the choice among them; the protocol of a call: which    *)
(* arguments a callable accepts and what it gets.                            *)
EXTENDS DyndMatch

(* ---- p covers q: every type that is an instance of q is one of p.         *)
(* Defined for kinds, scalars, dimensions and options.                       *)
RECURSIVE Covers(_, _), SureScalar(_), Orderly(_)
SureScalar(q) == q.k \notin (Dims \cup {"Any", "typevar", "tvcon"}) /\ (q.k = "option" => SureScalar(q.c[1]))
Covers(p, q) ==
  IF Conc(q) THEN Match(p, q, NoEnv).ok
  ELSE CASE p.k = "Any" -> TRUE
         [] p.k = "Scalar" -> SureScalar(q)
         [] p.k = "Bytes" -> q.k \in {"Bytes", "FixedBytes"}
         [] p.k = "String" -> q.k \in {"String", "FixedString"}
         [] p.k \in KindNames -> q.k = p.k
         [] p.k = "Dim" -> q.k \in {"Dim", "Fixed", "fixed", "var"} /\ Covers(El(p), El(q))
         [] p.k = "Fixed" -> q.k \in {"Fixed", "fixed"} /\ Covers(El(p), El(q))
         [] p.k = "fixed" -> q.k = "fixed" /\ q.n = p.n /\ Covers(El(p), El(q))
         [] p.k \in {"var", "option"} -> q.k = p.k /\ Covers(p.c[1], q.c[1])
         [] OTHER -> FALSE
Orderly(p) == CASE p.k \in {"Dim", "Fixed", "fixed", "var"} -> Orderly(p.c[1])
                [] p.k = "option" -> Ndim(p.c[1]) = 0 /\ Orderly(p.c[1])
                [] p.k \in KindNames -> p.k \notin {"State", "Categorical"}
                [] OTHER -> Conc(p) /\ Len(p.c) = 0
(* signatures *)
Above(s, t) == \A i \in DOMAIN s : Covers(s[i], t[i])          \* s accepts whatever t accepts
Over(s, t) == Above(s, t) /\ ~Above(t, s)
Overlap(s, t) == \A i \in DOMAIN s : Covers(s[i], t[i]) \/ Covers(t[i], s[i])
Ambiguous(s, t) == Overlap(s, t) /\ ~Above(s, t) /\ ~Above(t, s)
(* every two signatures that overlap without one being the more special need one more special than both *)
Admissible(reg) == \A i \in DOMAIN reg, j \in DOMAIN reg : i < j /\ Ambiguous(reg[i], reg[j]) =>
                     \E k \in DOMAIN reg : Above(reg[i], reg[k]) /\ Above(reg[j], reg[k])
Matching(reg, tps) == {i \in DOMAIN reg : Above(reg[i], tps)}
Best(reg, tps) == LET m == Matching(reg, tps) IN {i \in m : \A j \in m : ~Over(reg[i], reg[j])}

(* ---- a call.  sig: a callable type; args: types; kws: <<[n |-> name, t |-> type]>> *)
Fail == [ok |-> FALSE, e |-> NoEnv, kw |-> <<>>, dst |-> 0, dt |-> Void, free |-> FALSE]
Index(names, n) == IF \E i \in DOMAIN names : names[i] = n THEN CHOOSE i \in DOMAIN names : names[i] = n ELSE 0
Strip1(t) == IF t.k = "option" THEN t.c[1] ELSE t
RECURSIVE TakeKws(_, _, _, _, _)
(* m: what has been accepted so far; i: next keyword given; off: number of values given before the keywords *)
TakeKws(kst, kws, i, off, m) ==
  IF ~m.ok \/ i > Len(kws) THEN m
  ELSE LET k == Index(kst.s, kws[i].n) IN
       IF k # 0
       THEN LET b == Match(Strip1(kst.c[k]), kws[i].t, m.e) IN
            IF m.kw[k] # 0 \/ ~b.ok THEN Fail
            ELSE TakeKws(kst, kws, i + 1, off, [m EXCEPT !.e = b.e, !.kw[k] = off + i])
       ELSE IF kws[i].n = "dst" THEN TakeKws(kst, kws, i + 1, off, [m EXCEPT !.dst = off + i, !.dt = kws[i].t, !.free = m.dst # 0])
       ELSE IF kws[i].n = "dst_tp" THEN TakeKws(kst, kws, i + 1, off, [m EXCEPT !.dst = -1, !.dt = kws[i].t, !.free = m.dst # 0])
       ELSE Fail
RECURSIVE TakeSpill(_, _, _, _)
TakeSpill(kst, spill, j, m) ==
  IF ~m.ok \/ j > Len(spill) THEN m
  ELSE LET b == Match(Strip1(kst.c[j]), spill[j], m.e) IN
       IF b.ok THEN TakeSpill(kst, spill, j + 1, [m EXCEPT !.e = b.e, !.kw[j] = j]) ELSE Fail
Call(sig, args, kws) ==
  LET ret == sig.c[1]
      pos == sig.c[2]
      kst == sig.c[3]
      n == Len(pos.c)
      extra == Len(args) - n
      spill == IF extra > 0 /\ pos.n[1] = 0 THEN SubSeq(args, n + 1, Len(args)) ELSE <<>>
      m0 == IF extra < 0 \/ Len(spill) > Len(kst.c) THEN None ELSE MatchAll(pos.c, SubSeq(args, 1, n), NoEnv)
      m1 == [ok |-> m0.ok, e |-> m0.e, kw |-> [i \in 1..Len(kst.c) |-> 0], dst |-> 0, dt |-> Void, free |-> FALSE]
      m2 == IF m1.ok THEN TakeSpill(kst, spill, 1, m1) ELSE Fail
      m3 == IF m2.ok THEN TakeKws(kst, kws, 1, IF extra > 0 THEN extra ELSE 0, m2) ELSE Fail
      b == IF m3.ok /\ m3.dst # 0 THEN Match(ret, m3.dt, m3.e) ELSE [ok |-> m3.ok, e |-> m3.e]
      missing == {k \in 1..Len(kst.c) : m3.ok /\ m3.kw[k] = 0}
      bad == \E k \in missing : kst.c[k].k # "option"
      res == IF m3.dst # 0 THEN m3.dt ELSE Subst(ret, b.e, TRUE)
  IN IF ~m3.ok \/ ~b.ok \/ bad \/ res = Error THEN Fail
     ELSE [m3 EXCEPT !.e = b.e, !.dt = res, !.kw = [k \in DOMAIN m3.kw |-> IF m3.kw[k] = 0 THEN -1 ELSE m3.kw[k]]]
=============================================================================
