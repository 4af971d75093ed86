----------------------------- MODULE DispatchMC -----------------------------
(* All overload sets of a few signatures over a small lattice of types,      *)
(* registered in every order: the first match in any order that puts special *)
(* signatures first is a best match, and a set closed under overlap has one  *)
(* best match for every call.                                                *)
EXTENDS DyndCall, Json
CONSTANTS N, MaxReg, Small
VARIABLES reg
I32 == Leaf("int32")
Pats == IF Small THEN {Leaf("Any"), Leaf("Scalar"), Leaf("Int"), I32}
        ELSE {Leaf("Any"), Leaf("Scalar"), Leaf("Int"), I32, Leaf("float64"), Option(Leaf("Int")), Option(Leaf("Any")), Leaf("String"), Leaf("FixedString"),
              Dim("Dim", Leaf("Any")), Dim("Fixed", Leaf("Any")), Dim("Fixed", Leaf("Int")), FixedDim(3, Leaf("Scalar")), VarDim(Leaf("Any")), FixedDim(3, I32)}
Calls1 == {I32, Leaf("int64"), Leaf("float64")} \cup
          (IF Small THEN {FixedDim(3, I32)} ELSE {FixedDim(3, I32), FixedDim(2, I32), VarDim(I32), FixedDim(3, FixedDim(2, I32)), Option(I32), Option(Leaf("float64")),
              Leaf("string"), Node("fixed_string", <<5>>, <<"utf8">>, <<>>)})
SigSet == [1..N -> Pats]
CallSet == [1..N -> Calls1]
Init == reg = <<>>
Register(s) == reg' = Append(reg, s) /\ Admissible(reg')
Next == Len(reg) < MaxReg /\ \E s \in SigSet : (\A i \in DOMAIN reg : reg[i] # s) /\ Register(s)
Spec == Init /\ [][Next]_reg
Orders == {o \in [DOMAIN reg -> DOMAIN reg] : /\ \A i, j \in DOMAIN reg : i # j => o[i] # o[j]
                                             /\ \A i, j \in DOMAIN reg : Over(reg[o[i]], reg[o[j]]) => j < i}
FirstMatch(o, call) == LET m == {i \in DOMAIN o : Above(reg[o[i]], call)} IN o[CHOOSE i \in m : \A j \in m : i <= j]
Lookup == \A o \in Orders : \A call \in CallSet : Matching(reg, call) # {} => FirstMatch(o, call) \in Best(reg, call)
Closed == \A i, j \in DOMAIN reg : (\E call \in CallSet : Above(reg[i], call) /\ Above(reg[j], call)) =>
            \E k \in DOMAIN reg : /\ Above(reg[i], reg[k]) /\ Above(reg[j], reg[k])
                                  /\ \A call \in CallSet : Above(reg[i], call) /\ Above(reg[j], call) => Above(reg[k], call)
Unique == Closed => \A call \in CallSet : Cardinality(Best(reg, call)) <= 1
(* covering is a partial order that agrees with what the patterns match *)
Lattice == reg = <<>> => \A p, q \in Pats : /\ Covers(p, p)
                                            /\ Covers(p, q) => \A x \in Calls1 : Covers(q, x) => Covers(p, x)
                                            /\ \A x \in Pats : Covers(p, q) /\ Covers(q, x) => Covers(p, x)
Gen == Len(reg) = MaxReg => PrintT("GEN " \o ToJson([i \in DOMAIN reg |-> [j \in 1..N |-> Text(reg[i][j])]]))
GenC == reg = <<>> => PrintT("GEN " \o ToJson([c |-> 1, t |-> {Text(x) : x \in Calls1}]))
=============================================================================
