------------------------------ MODULE MatchMC ------------------------------
(* All small patterns against all small concrete types: a match yields       *)
(* bindings that give the type back, and every instance of a pattern         *)
(* matches it.  The pairs are printed for replay.                            *)
EXTENDS DyndMatch, Json
CONSTANTS PDepth, QDepth
VARIABLES p, d
I32 == Leaf("int32")
Scalars == {I32, Leaf("bool"), Leaf("string")}
NoK == Struct(<<>>, <<>>, 0)
QUp(x) == {FixedDim(1, x), FixedDim(3, x), VarDim(x), Dim("pointer", x), Tuple(<<x>>, 0), Tuple(<<I32, x>>, 0),
           Struct(<<"x">>, <<x>>, 0), Callable(x, Tuple(<<I32>>, 0), NoK),
           Callable(I32, Tuple(<<I32>>, 0), Struct(<<"x">>, <<x>>, 0))} \cup (IF x.k = "option" \/ Ndim(x) > 0 THEN {} ELSE {Option(x)})
RECURSIVE QS(_)
QS(n) == IF n = 0 THEN Scalars ELSE LET s == QS(n - 1) IN s \cup UNION {QUp(x) : x \in s}
Concretes == QS(QDepth)

PLeaves == Scalars \cup {Tv("T"), Tv("S"), Leaf("Any"), Leaf("Scalar"), Leaf("Int"), Leaf("String"), Tuple(<<>>, 1), Struct(<<>>, <<>>, 1)}
PUp(x) == QUp(x) \cup
  {Dim("Fixed", x), Dim("Dim", x), TvDim("N", x), Ellipsis("D", x), Ellipsis("", x), Node("powdim", <<>>, <<"E">>, <<FixedDim(3, Void), x>>),
   Node("powdim", <<>>, <<"E">>, <<TvDim("N", Void), x>>), Node("tvcon", <<>>, <<"C">>, <<x>>),
   Tuple(<<x>>, 1), Tuple(<<Tv("T"), x>>, 0), Struct(<<"x">>, <<x>>, 1), Tuple(<<x, x>>, 0), Tuple(<<Ellipsis("D", Tv("T")), x>>, 0), Tuple(<<Ellipsis("D", Tv("T")), Ellipsis("D", x)>>, 0),
   Callable(x, Tuple(<<x>>, 0), NoK)}
Init == p \in PLeaves /\ d = 0
Next == d < PDepth /\ d' = d + 1 /\ p' \in PUp(p)
Spec == Init /\ [][Next]_<<p, d>>

RECURSIVE Frags(_)
Frags(x) == (IF x.k = "ellipsis" THEN 1 ELSE 0) +
            LET f[i \in 0..Len(x.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Frags(x.c[i]) IN f[Len(x.c)]
Sound == Promised(p) /\ Named(p) /\ Frags(p) <= 1 =>
         \A q \in Concretes : LET m == Match(p, q, NoEnv) IN m.ok => Subst(p, m.e, TRUE) = q
Envs == [T : {[r |-> "type", a |-> x] : x \in {I32, Tuple(<<I32>>, 0)}}, S : {[r |-> "type", a |-> Leaf("bool")]},
         N : {[r |-> "dim", a |-> x] : x \in {FixedDim(1, Void), FixedDim(3, Void), VarDim(Void)}},
         D : {[r |-> "frag", a |-> Frag(x)] : x \in {<<>>, <<3>>, <<-1, 3>>}},
         E : {[r |-> "exp", a |-> FixedDim(x, Void)] : x \in 0..2}, C : {[r |-> "con", a |-> Void]}]
Complete == Promised(p) => \A e \in Envs : LET z == Subst(p, e, TRUE) IN
              z # Error /\ Conc(z) /\ Simple(z) => Match(p, z, NoEnv).ok
(* a more general pattern matches whatever the more special one matches *)
General == Promised(p) => \A q \in Concretes : Match(p, q, NoEnv).ok =>
             /\ Match(Leaf("Any"), q, NoEnv).ok
             /\ Match(Ellipsis("", Leaf("Any")), q, NoEnv).ok
             /\ (p.k = "tvdim" => Match(Dim("Dim", Leaf("Any")), q, NoEnv).ok)
Gen == PrintT("GEN " \o ToJson([p |-> Text(p)]))
GenQ == d = 0 /\ p = I32 => \A q \in Concretes : PrintT("GEN " \o ToJson([q |-> Text(q)]))
=============================================================================
