------------------------------- MODULE CallMC -------------------------------
(* Every call that can be put together from small parts, one argument at a   *)
(* time, against every small signature.                                      *)
EXTENDS DyndCall, Json
CONSTANTS MaxPos, MaxKw, MaxArgs, MaxKws, Rich, Print1
VARIABLES sig, args, kws
vars == <<sig, args, kws>>
I32 == Leaf("int32")
PosPats == {Tv("T"), TvDim("N", Tv("T")), I32} \cup (IF Rich THEN {Leaf("Any"), Ellipsis("D", Tv("T")), FixedDim(3, Tv("S"))} ELSE {})
KwPats == {Tv("T"), Option(Tv("T"))} \cup (IF Rich THEN {Option(I32), Tv("S"), TvDim("N", I32)} ELSE {})
Rets == {Tv("T"), I32} \cup (IF Rich THEN {TvDim("N", Tv("T")), Leaf("Any")} ELSE {})
ArgTs == {I32, Leaf("float64"), FixedDim(3, I32)} \cup (IF Rich THEN {FixedDim(2, I32)} ELSE {})
KwTs == {I32, FixedDim(3, I32)} \cup (IF Rich THEN {Leaf("float64")} ELSE {})
Names == <<"x", "y">>
SeqsTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
Sigs == {Callable(r, Tuple(a, 0), Struct(SubSeq(Names, 1, Len(k)), k, 0)) : r \in Rets, a \in SeqsTo(PosPats, MaxPos), k \in SeqsTo(KwPats, MaxKw)}
Init == sig \in Sigs /\ args = <<>> /\ kws = <<>>
GiveArg == Len(args) < MaxArgs /\ kws = <<>> /\ \E t \in ArgTs : args' = Append(args, t) /\ UNCHANGED <<sig, kws>>
GiveKw == Len(kws) < MaxKws /\ \E n \in {"x", "y", "dst", "q"}, t \in KwTs : (n = "dst" => \A i \in DOMAIN kws : kws[i].n # n) /\ kws' = Append(kws, [n |-> n, t |-> t]) /\ UNCHANGED <<sig, args>>
Next == GiveArg \/ GiveKw
Spec == Init /\ [][Next]_vars

pos == sig.c[2].c
kst == sig.c[3]
r == Call(sig, args, kws)
NameSet == {kws[i].n : i \in DOMAIN kws}
Frags(x) == \E i \in DOMAIN pos : pos[i].k = "ellipsis"
Swap(ks, i, j) == [m \in DOMAIN ks |-> IF m = i THEN ks[j] ELSE IF m = j THEN ks[i] ELSE ks[m]]
Given(k) == IF r.kw[k] <= Len(args) - Len(pos) THEN args[Len(pos) + r.kw[k]] ELSE kws[r.kw[k] - (Len(args) - Len(pos))].t
(* the bindings of an accepted call reproduce every argument and every keyword *)
Types == r.ok /\ ~Frags(sig) =>
  /\ \A i \in DOMAIN pos : pos[i].k # "Any" => Subst(pos[i], r.e, TRUE) = args[i]
  /\ \A k \in DOMAIN kst.c : r.kw[k] > 0 => Subst(Strip1(kst.c[k]), r.e, TRUE) = Given(k)
  /\ sig.c[1].k # "Any" => Subst(sig.c[1], r.e, TRUE) = r.dt
  /\ Conc(r.dt)
Complete == r.ok =>
  /\ Len(args) >= Len(pos)
  /\ \A k \in DOMAIN kst.c : r.kw[k] = -1 => kst.c[k].k = "option" /\ kst.s[k] \notin NameSet
  /\ \A i \in DOMAIN kws : kws[i].n \in {kst.s[k] : k \in DOMAIN kst.s} \cup {"dst"}
  /\ \A i, j \in DOMAIN kws : kws[i].n = kws[j].n => i = j \/ kws[i].n = "dst"
(* the order in which keywords are given does not matter *)
Order == \A i, j \in DOMAIN kws : i < j => LET o == Call(sig, args, Swap(kws, i, j)) IN
           ~r.free => /\ o.ok = r.ok
                      /\ r.ok => o.dt = r.dt /\ \A k \in DOMAIN r.kw : (o.kw[k] = -1) = (r.kw[k] = -1)
(* a keyword may as well be given by position *)
Spill == Len(args) >= Len(pos) /\ Len(args) - Len(pos) < Len(kst.c) =>
           LET k == Len(args) - Len(pos) + 1
               at == Index([i \in DOMAIN kws |-> kws[i].n], kst.s[k])
           IN at # 0 => Call(sig, Append(args, kws[at].t), SubSeq(kws, 1, at - 1) \o SubSeq(kws, at + 1, Len(kws))).ok = r.ok
Unknown == ("q" \in NameSet \/ Len(args) < Len(pos) \/ Len(args) > Len(pos) + Len(kst.c)) => ~r.ok
Gen == Print1 => PrintT("GEN " \o ToJson([s |-> Text(sig), p |-> [i \in DOMAIN args |-> Text(args[i])], k |-> [i \in DOMAIN kws |-> [n |-> kws[i].n, ts |-> Text(kws[i].t)]]]))
=============================================================================
