------------------------------ MODULE TypeMC ------------------------------
(* All small types: the text of every type denotes that type, sizes are     *)
(* multiples of alignments, and the types are printed for replay.           *)
EXTENDS DyndType, Json
CONSTANT Depth
VARIABLES t, d
Leaves == {Leaf("int32"), Leaf("bool"), Leaf("complex128"), Leaf("string"), Leaf("Any"), Tv("T"), Node("bytes", <<8>>, <<>>, <<>>), FixedBytes(12, 4),
           Node("fixed_string", <<5>>, <<"utf16">>, <<>>), Node("char", <<>>, <<"utf32">>, <<>>),
           Tuple(<<>>, 0), Tuple(<<>>, 1), Struct(<<>>, <<>>, 0), Struct(<<>>, <<>>, 1)}
Void == Leaf("void")
I8 == Leaf("int8")
Up1(x) ==
  {FixedDim(3, x), FixedDim(0, x), VarDim(x), Dim("Fixed", x), Dim("Dim", x), TvDim("N", x), Ellipsis("", x), Ellipsis("D", x),
   Node("powdim", <<>>, <<"E">>, <<FixedDim(2, Void), x>>), Node("powdim", <<>>, <<"E">>, <<TvDim("M", Void), x>>),
   Node("powdim", <<>>, <<"N">>, <<Dim("Fixed", Void), x>>), Dim("pointer", x), Node("tvcon", <<>>, <<"C">>, <<x>>),
   Tuple(<<x>>, 0), Tuple(<<x>>, 1), Tuple(<<x, I8>>, 0), Tuple(<<I8, x, I8>>, 0),
   Struct(<<"x">>, <<x>>, 0), Struct(<<"x">>, <<x>>, 1), Struct(<<"y", "a b">>, <<I8, x>>, 0),
   Callable(x, Tuple(<<>>, 0), Struct(<<>>, <<>>, 0)), Callable(Void, Tuple(<<x>>, 0), Struct(<<>>, <<>>, 0)),
   Callable(Void, Tuple(<<x, I8>>, 1), Struct(<<>>, <<>>, 1)), Callable(I8, Tuple(<<>>, 0), Struct(<<"k">>, <<x>>, 0)),
   Callable(I8, Tuple(<<I8>>, 1), Struct(<<"k", "j">>, <<x, I8>>, 1))}
  \cup IF x.k = "option" THEN {} ELSE {Option(x)}

Init == t \in Leaves /\ d = 0
Next == d < Depth /\ t' \in Up1(t) /\ d' = d + 1
Spec == Init /\ [][Next]_<<t, d>>
(* a callable's argument list that ends in "..." leaves the keywords open too *)
RECURSIVE Writable(_)
Writable(x) == /\ \A i \in DOMAIN x.c : Writable(x.c[i])
               /\ x.k = "callable" /\ x.c[3].c = <<>> => x.c[2].n[1] = x.c[3].n[1]
RoundTrip == Writable(t) => Parse(Text(t)) = [e |-> "ok", a |-> t]
Layout == ~Symbolic(t) => Align(t) \in {1, 2, 4, 8, 16} /\ DSize(t) % Align(t) = 0
Gen == Writable(t) => PrintT("GEN " \o ToJson(Text(t)))
=============================================================================
