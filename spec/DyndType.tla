------------------------------ MODULE DyndType ------------------------------
(* Types as trees, the text that denotes them, and their layout.             *)
(* A type is [k, n, s, c]: kind, numbers, strings, children.                 *)
(* A text is a sequence of tokens [t, v, n]: t is "lo"/"up" (a name starting *)
(* with a lower/upper case letter), "num", "q" (quoted string), "p".         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Node(k, n, s, c) == [k |-> k, n |-> n, s |-> s, c |-> c]
Leaf(k) == Node(k, <<>>, <<>>, <<>>)
Dim(k, el) == Node(k, <<>>, <<>>, <<el>>)
FixedDim(n, el) == Node("fixed", <<n>>, <<>>, <<el>>)
VarDim(el) == Dim("var", el)
TvDim(name, el) == Node("tvdim", <<>>, <<name>>, <<el>>)
Ellipsis(name, el) == Node("ellipsis", <<>>, <<name>>, <<el>>)
Tv(name) == Node("typevar", <<>>, <<name>>, <<>>)
Tuple(c, var) == Node("tuple", <<var>>, <<>>, c)
Struct(names, c, var) == Node("struct", <<var>>, names, c)
Callable(ret, pos, kwd) == Node("callable", <<>>, <<>>, <<ret, pos, kwd>>)
Option(v) == Dim("option", v)

(* ---- names *)
Alias == [int |-> "int32", intptr |-> "int64", uintptr |-> "uint64", size |-> "uint64", real |-> "float64",
          complex |-> "complex128", complex32 |-> "complex64"]
IntSize == [int8 |-> 1, int16 |-> 2, int32 |-> 4, int64 |-> 8, int128 |-> 16,
            uint8 |-> 1, uint16 |-> 2, uint32 |-> 4, uint64 |-> 8, uint128 |-> 16]
Ints == {"int8", "int16", "int32", "int64", "int128"}
UInts == {"uint8", "uint16", "uint32", "uint64", "uint128"}
Floats == {"float16", "float32", "float64", "float128"}
Complexes == {"complex64", "complex128"}
Numbers == {"bool"} \cup Ints \cup UInts \cup Floats \cup Complexes
Plain == Numbers \cup {"void", "string", "type", "array"}
KindNames == {"Any", "Scalar", "Bool", "Int", "UInt", "Float", "Complex", "Bytes", "FixedBytes", "String", "FixedString",
              "Categorical", "State"}
(* names that need arguments, or are reserved *)
NoSingleton == {"Dim", "Fixed", "var", "fixed", "fixed_bytes", "fixed_string", "tuple", "struct", "categorical", "option", "pointer",
                "memory", "callable", "Expr", "adapt", "expr", "cuda_host", "cuda_device"}
Reserved == Plain \cup KindNames \cup NoSingleton \cup {"bytes", "char", "complex32"}
Encoding == [A |-> "ascii", ascii |-> "ascii", U8 |-> "utf8", utf8 |-> "utf8", utf_8 |-> "utf8", U16 |-> "utf16",
             utf16 |-> "utf16", utf_16 |-> "utf16", U32 |-> "utf32", utf32 |-> "utf32", utf_32 |-> "utf32",
             ucs2 |-> "ucs2", ucs_2 |-> "ucs2"] @@
            ("us-ascii" :> "ascii" @@ "utf-8" :> "utf8" @@ "utf-16" :> "utf16" @@ "utf-32" :> "utf32" @@ "ucs-2" :> "ucs2")
CharSize == [ascii |-> 1, utf8 |-> 1, utf16 |-> 2, ucs2 |-> 2, utf32 |-> 4]

(* ---- parsing.  A result is [ok, a, i]: the type and the next position.    *)
Bad == [ok |-> FALSE, a |-> Leaf("null"), i |-> 0]
Ok(a, i) == [ok |-> TRUE, a |-> a, i |-> i]
P(ts, i, v) == i <= Len(ts) /\ ts[i].t = "p" /\ ts[i].v = v
IsName(ts, i) == i <= Len(ts) /\ ts[i].t \in {"lo", "up"}
IsNum(ts, i) == i <= Len(ts) /\ ts[i].t = "num"
IsLo(ts, i, v) == IsName(ts, i) /\ ts[i].v = v

Pow2 == {1, 2, 4, 8, 16}
BytesArgs(ts, i) ==      \* at "["
  IF P(ts, i, "[") /\ IsLo(ts, i + 1, "align") /\ P(ts, i + 2, "=") /\ IsNum(ts, i + 3) /\ P(ts, i + 4, "]") /\ ts[i + 3].n \in Pow2
  THEN Ok(Node("bytes", <<ts[i + 3].n>>, <<>>, <<>>), i + 5) ELSE Bad
FixedBytes(sz, al) == Node("fixed_bytes", <<sz, al>>, <<>>, <<>>)
FixedBytesArgs(ts, i) ==
  IF ~(P(ts, i, "[") /\ IsNum(ts, i + 1)) THEN Bad
  ELSE IF P(ts, i + 2, "]") THEN (IF ts[i + 1].n >= 1 THEN Ok(FixedBytes(ts[i + 1].n, 1), i + 3) ELSE Bad)
  ELSE IF P(ts, i + 2, ",") /\ IsLo(ts, i + 3, "align") /\ P(ts, i + 4, "=") /\ IsNum(ts, i + 5) /\ P(ts, i + 6, "]")
          /\ ts[i + 5].n \in Pow2 /\ ts[i + 5].n <= ts[i + 1].n /\ ts[i + 1].n % ts[i + 5].n = 0
       THEN Ok(FixedBytes(ts[i + 1].n, ts[i + 5].n), i + 7) ELSE Bad
IsEnc(ts, i) == i <= Len(ts) /\ ts[i].t = "q" /\ ts[i].v \in DOMAIN Encoding
FixedStringArgs(ts, i) ==
  IF ~(P(ts, i, "[") /\ IsNum(ts, i + 1) /\ ts[i + 1].n >= 1) THEN Bad
  ELSE IF P(ts, i + 2, "]") THEN Ok(Node("fixed_string", <<ts[i + 1].n>>, <<"utf8">>, <<>>), i + 3)
  ELSE IF P(ts, i + 2, ",") /\ IsEnc(ts, i + 3) /\ P(ts, i + 4, "]")
       THEN Ok(Node("fixed_string", <<ts[i + 1].n>>, <<Encoding[ts[i + 3].v]>>, <<>>), i + 5) ELSE Bad
CharArgs(ts, i) ==
  IF P(ts, i, "[") /\ IsEnc(ts, i + 1) /\ P(ts, i + 2, "]") /\ Encoding[ts[i + 1].v] \in {"ascii", "ucs2", "utf32"}
  THEN Ok(Node("char", <<>>, <<Encoding[ts[i + 1].v]>>, <<>>), i + 3) ELSE Bad

RECURSIVE PType(_, _), PNoOpt(_, _), PFields(_, _, _, _, _), PItems(_, _, _)
(* a child type followed by a closing "]" *)
PArg(ts, i) == LET r == PType(ts, i + 1) IN IF P(ts, i, "[") /\ r.ok /\ P(ts, r.i, "]") THEN Ok(r.a, r.i + 1) ELSE Bad
RECURSIVE Repeat(_, _, _)
Repeat(b, n, el) == IF n = 0 THEN el ELSE [b EXCEPT !.c = <<Repeat(b, n - 1, el)>>]
Base(t) == IF t.t = "num" THEN FixedDim(t.n, Leaf("void"))
           ELSE IF t.v = "var" THEN VarDim(Leaf("void"))
           ELSE IF t.v = "Fixed" THEN Dim("Fixed", Leaf("void"))
           ELSE IF t.t = "up" /\ t.v \notin Reserved THEN TvDim(t.v, Leaf("void"))
           ELSE Leaf("null")
MakeOption(r) == IF ~r.ok \/ r.a.k = "option" THEN Bad ELSE Ok(Option(r.a), r.i)

PType(ts, i) == IF P(ts, i, "?") THEN MakeOption(PNoOpt(ts, i + 1)) ELSE PNoOpt(ts, i)

(* record items from position i; done is the closing bracket.  quoted: whether names may be quoted *)
PFields(ts, i, close, quoted, acc) ==
  IF P(ts, i, "...")
  THEN IF P(ts, i + 1, close) THEN Ok(Struct(acc.s, acc.c, 1), i + 2) ELSE Bad
  ELSE IF ~((IsName(ts, i) \/ (quoted /\ i <= Len(ts) /\ ts[i].t = "q")) /\ P(ts, i + 1, ":")) THEN Bad
  ELSE LET r == PType(ts, i + 2)
           a2 == [s |-> Append(acc.s, ts[i].v), c |-> Append(acc.c, r.a)]
       IN IF ~r.ok THEN Bad
          ELSE IF P(ts, r.i, close) THEN Ok(Struct(a2.s, a2.c, 0), r.i + 1)
          ELSE IF ~P(ts, r.i, ",") THEN Bad
          ELSE IF P(ts, r.i + 1, close) THEN Ok(Struct(a2.s, a2.c, 0), r.i + 2)
          ELSE PFields(ts, r.i + 1, close, quoted, a2)

(* "-> type" after the arguments of a callable, or a tuple *)
PArrow(ts, i, tup, kwd, must) ==
  IF P(ts, i, "->")
  THEN LET r == PType(ts, i + 1) IN IF r.ok THEN Ok(Callable(r.a, tup, kwd), r.i) ELSE Bad
  ELSE IF must THEN Bad ELSE Ok(tup, i)
PItems(ts, i, acc) ==
  LET el == P(ts, i, "...") /\ P(ts, i + 1, ",")
      k == IF el THEN i + 2 ELSE i
      noK(var) == Struct(<<>>, <<>>, var)
  IN IF IsName(ts, k) /\ P(ts, k + 1, ":")
     THEN LET r == PFields(ts, k, ")", FALSE, [s |-> <<>>, c |-> <<>>]) IN
          IF r.ok THEN PArrow(ts, r.i, Tuple(acc, IF el THEN 1 ELSE 0), r.a, TRUE) ELSE Bad
     ELSE IF P(ts, i, "...") /\ P(ts, i + 1, ")") THEN PArrow(ts, i + 2, Tuple(acc, 1), noK(1), FALSE)
     ELSE LET r == PType(ts, i)
              a2 == Append(acc, r.a)
          IN IF ~r.ok THEN Bad
             ELSE IF P(ts, r.i, ")") THEN PArrow(ts, r.i + 1, Tuple(a2, 0), noK(0), FALSE)
             ELSE IF ~P(ts, r.i, ",") THEN Bad
             ELSE IF P(ts, r.i + 1, ")") THEN PArrow(ts, r.i + 2, Tuple(a2, 0), noK(0), FALSE)
             ELSE PItems(ts, r.i + 1, a2)

PNoOpt(ts, i) ==
  IF P(ts, i, "...")
  THEN LET r == PType(ts, i + 2) IN IF P(ts, i + 1, "*") /\ r.ok THEN Ok(Ellipsis("", r.a), r.i) ELSE Bad
  ELSE IF P(ts, i, "{")
  THEN IF P(ts, i + 1, "}") THEN Ok(Struct(<<>>, <<>>, 0), i + 2) ELSE PFields(ts, i + 1, "}", TRUE, [s |-> <<>>, c |-> <<>>])
  ELSE IF P(ts, i, "(")
  THEN IF P(ts, i + 1, ")") THEN PArrow(ts, i + 2, Tuple(<<>>, 0), Struct(<<>>, <<>>, 0), FALSE) ELSE PItems(ts, i + 1, <<>>)
  ELSE IF ~(IsName(ts, i) \/ IsNum(ts, i)) THEN Bad
  ELSE
  LET t == ts[i] IN
  CASE P(ts, i + 1, "**") ->
         LET b == Base(t)
             r == PType(ts, i + 4)
         IN IF b.k = "null" \/ ~P(ts, i + 3, "*") \/ ~r.ok THEN Bad
            ELSE IF IsNum(ts, i + 2) /\ ts[i + 2].n >= 1 THEN Ok(Repeat(b, ts[i + 2].n, r.a), r.i)
            ELSE IF i + 2 <= Len(ts) /\ ts[i + 2].t = "up" THEN Ok(Node("powdim", <<>>, <<ts[i + 2].v>>, <<b, r.a>>), r.i)
            ELSE Bad
    [] P(ts, i + 1, "*") ->
         LET r == PType(ts, i + 2) IN
         IF ~r.ok THEN Bad
         ELSE IF t.t = "num" THEN Ok(FixedDim(t.n, r.a), r.i)
         ELSE IF t.v \in {"Dim", "Fixed", "var"} THEN Ok(Dim(t.v, r.a), r.i)
         ELSE IF t.t = "up" /\ t.v \notin Reserved THEN Ok(TvDim(t.v, r.a), r.i)
         ELSE Bad
    [] P(ts, i + 1, "...") ->
         LET r == PType(ts, i + 3) IN
         IF t.t = "up" /\ P(ts, i + 2, "*") /\ r.ok THEN Ok(Ellipsis(t.v, r.a), r.i) ELSE Bad
    [] OTHER ->
       IF t.t = "num" THEN Bad
       ELSE IF t.v = "complex"
       THEN IF P(ts, i + 1, "[")
            THEN LET r == PArg(ts, i + 1) IN
                 IF r.ok /\ r.a = Leaf("float32") THEN Ok(Leaf("complex64"), r.i)
                 ELSE IF r.ok /\ r.a = Leaf("float64") THEN Ok(Leaf("complex128"), r.i) ELSE Bad
            ELSE Ok(Leaf("complex128"), i + 1)
       ELSE IF t.v \in DOMAIN Alias THEN Ok(Leaf(Alias[t.v]), i + 1)
       ELSE IF t.v = "bytes" THEN (IF P(ts, i + 1, "[") THEN BytesArgs(ts, i + 1) ELSE Ok(Node("bytes", <<1>>, <<>>, <<>>), i + 1))
       ELSE IF t.v = "char" THEN (IF P(ts, i + 1, "[") THEN CharArgs(ts, i + 1) ELSE Ok(Node("char", <<>>, <<"utf32">>, <<>>), i + 1))
       ELSE IF t.v \in Plain \cup KindNames THEN (IF P(ts, i + 1, "[") THEN Bad ELSE Ok(Leaf(t.v), i + 1))
       ELSE IF t.v = "fixed_bytes" THEN FixedBytesArgs(ts, i + 1)
       ELSE IF t.v = "fixed_string" THEN FixedStringArgs(ts, i + 1)
       ELSE IF t.v = "option" THEN MakeOption(PArg(ts, i + 1))
       ELSE IF t.v = "pointer" THEN (LET r == PArg(ts, i + 1) IN IF r.ok THEN Ok(Dim("pointer", r.a), r.i) ELSE Bad)
       ELSE IF t.v = "fixed"
       THEN LET r == PType(ts, i + 5) IN
            IF P(ts, i + 1, "[") /\ IsNum(ts, i + 2) /\ P(ts, i + 3, "]") /\ P(ts, i + 4, "*") /\ r.ok
            THEN Ok(FixedDim(ts[i + 2].n, r.a), r.i) ELSE Bad
       ELSE IF t.t = "up" /\ t.v \notin Reserved
       THEN IF P(ts, i + 1, "[")
            THEN LET r == PArg(ts, i + 1) IN IF r.ok THEN Ok(Node("tvcon", <<>>, <<t.v>>, <<r.a>>), r.i) ELSE Bad
            ELSE Ok(Tv(t.v), i + 1)
       ELSE Bad

(* The whole text.  "free": a sequence of statements or a type alias, where nothing is promised *)
Parse(ts) == LET r == PType(ts, 1) IN
             IF IsLo(ts, 1, "type") /\ Len(ts) > 1 THEN [e |-> "free", a |-> Leaf("null")]
             ELSE IF ~r.ok THEN [e |-> "bad", a |-> Leaf("null")]
             ELSE IF r.i > Len(ts) THEN [e |-> "ok", a |-> r.a]
             ELSE IF PType(ts, r.i).ok \/ IsLo(ts, r.i, "type") THEN [e |-> "free", a |-> Leaf("null")]
             ELSE [e |-> "bad", a |-> Leaf("null")]

(* ---- printing: the tokens that denote a type *)
Tk(v) == [t |-> "p", v |-> v, n |-> 0]
TkN(n) == [t |-> "num", v |-> "", n |-> n]
TkName(v, up) == [t |-> IF up THEN "up" ELSE "lo", v |-> v, n |-> 0]
TkQ(v) == [t |-> "q", v |-> v, n |-> 0]
RECURSIVE Text(_), TextList(_, _, _)
TextList(c, s, bare) ==    \* comma separated; s: names or <<>>; bare: unquoted
  IF c = <<>> THEN <<>>
  ELSE (IF s = <<>> THEN <<>> ELSE <<IF bare THEN TkName(s[1], FALSE) ELSE TkQ(s[1]), Tk(":")>>) \o Text(c[1]) \o
       (IF Len(c) > 1 THEN <<Tk(",")>> \o TextList(Tail(c), IF s = <<>> THEN <<>> ELSE Tail(s), bare) ELSE <<>>)
More(a, var) == IF var = 0 THEN a ELSE a \o (IF a = <<>> THEN <<>> ELSE <<Tk(",")>>) \o <<Tk("...")>>
BaseTok(b) == CASE b.k = "fixed" -> TkN(b.n[1]) [] b.k = "var" -> TkName("var", FALSE) [] b.k = "Fixed" -> TkName("Fixed", TRUE)
                [] b.k = "tvdim" -> TkName(b.s[1], TRUE)
Text(t) ==
  CASE t.k = "fixed" -> <<TkN(t.n[1]), Tk("*")>> \o Text(t.c[1])
    [] t.k = "var" -> <<TkName("var", FALSE), Tk("*")>> \o Text(t.c[1])
    [] t.k \in {"Fixed", "Dim"} -> <<TkName(t.k, TRUE), Tk("*")>> \o Text(t.c[1])
    [] t.k = "tvdim" -> <<TkName(t.s[1], TRUE), Tk("*")>> \o Text(t.c[1])
    [] t.k = "ellipsis" -> (IF t.s[1] = "" THEN <<>> ELSE <<TkName(t.s[1], TRUE)>>) \o <<Tk("..."), Tk("*")>> \o Text(t.c[1])
    [] t.k = "powdim" -> <<BaseTok(t.c[1]), Tk("**"), TkName(t.s[1], TRUE), Tk("*")>> \o Text(t.c[2])
    [] t.k = "option" -> <<Tk("?")>> \o Text(t.c[1])
    [] t.k = "pointer" -> <<TkName("pointer", FALSE), Tk("[")>> \o Text(t.c[1]) \o <<Tk("]")>>
    [] t.k = "tvcon" -> <<TkName(t.s[1], TRUE), Tk("[")>> \o Text(t.c[1]) \o <<Tk("]")>>
    [] t.k = "typevar" -> <<TkName(t.s[1], TRUE)>>
    [] t.k = "tuple" -> <<Tk("(")>> \o More(TextList(t.c, <<>>, FALSE), t.n[1]) \o <<Tk(")")>>
    [] t.k = "struct" -> <<Tk("{")>> \o More(TextList(t.c, t.s, FALSE), t.n[1]) \o <<Tk("}")>>
    [] t.k = "callable" ->
         LET pos == More(TextList(t.c[2].c, <<>>, FALSE), t.c[2].n[1])
             kw == TextList(t.c[3].c, t.c[3].s, TRUE)
         IN <<Tk("(")>> \o pos \o (IF kw = <<>> THEN <<>> ELSE (IF pos = <<>> THEN <<>> ELSE <<Tk(",")>>) \o More(kw, t.c[3].n[1]))
            \o <<Tk(")"), Tk("->")>> \o Text(t.c[1])
    [] t.k = "bytes" -> <<TkName("bytes", FALSE), Tk("["), TkName("align", FALSE), Tk("="), TkN(t.n[1]), Tk("]")>>
    [] t.k = "fixed_bytes" -> <<TkName("fixed_bytes", FALSE), Tk("["), TkN(t.n[1]), Tk(","), TkName("align", FALSE), Tk("="), TkN(t.n[2]), Tk("]")>>
    [] t.k = "fixed_string" -> <<TkName("fixed_string", FALSE), Tk("["), TkN(t.n[1]), Tk(","), TkQ(t.s[1]), Tk("]")>>
    [] t.k = "char" -> <<TkName("char", FALSE), Tk("["), TkQ(t.s[1]), Tk("]")>>
    [] t.k \in KindNames -> <<TkName(t.k, TRUE)>>
    [] OTHER -> <<TkName(t.k, FALSE)>>

(* ---- structure *)
Dims == {"fixed", "var", "Fixed", "Dim", "tvdim", "ellipsis", "powdim"}
El(t) == t.c[Len(t.c)]
RECURSIVE Ndim(_), Symbolic(_), DSize(_), Align(_), FieldsSize(_, _)
Ndim(t) == CASE t.k \in Dims -> 1 + Ndim(El(t)) [] t.k \in {"option", "tvcon"} -> Ndim(t.c[1]) [] OTHER -> 0
Symbolic(t) == CASE t.k \in {"Fixed", "Dim", "tvdim", "ellipsis", "powdim", "typevar", "tvcon"} \cup KindNames -> TRUE
                 [] t.k \in {"tuple", "struct"} -> t.n[1] = 1 \/ \E i \in DOMAIN t.c : Symbolic(t.c[i])
                 [] t.k = "callable" -> FALSE
                 [] t.k \in {"fixed", "var", "option", "pointer"} -> Symbolic(t.c[1])
                 [] OTHER -> FALSE
Error == Leaf("error")
RECURSIVE DimsOf(_), Strip(_, _), Replace(_, _, _), Ones(_, _)
DimsOf(t) == IF t.k \in Dims THEN 1 + DimsOf(El(t)) ELSE 0      \* leading dimensions
Strip(t, n) == IF n = 0 THEN t ELSE Strip(El(t), n - 1)
Replace(t, n, x) == IF n = 0 THEN x ELSE [t EXCEPT !.c = [t.c EXCEPT ![Len(t.c)] = Replace(El(t), n - 1, x)]]
RECURSIVE HasEllipsis(_)
HasEllipsis(t) == t.k \in Dims /\ (t.k = "ellipsis" \/ HasEllipsis(El(t)))
Ones(k, t) == IF k = 0 THEN t ELSE FixedDim(1, Ones(k - 1, t))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Up(x, a) == ((x + a - 1) \div a) * a
PlainSize == [bool |-> 1, float16 |-> 2, float32 |-> 4, float64 |-> 8, float128 |-> 16, complex64 |-> 8, complex128 |-> 16,
              void |-> 0, string |-> 16, type |-> 8, array |-> 8] @@ IntSize
PlainAlign == [bool |-> 1, float16 |-> 2, float32 |-> 4, float64 |-> 8, float128 |-> 8, complex64 |-> 4, complex128 |-> 8,
               void |-> 1, string |-> 8, type |-> 8, array |-> 8, int128 |-> 8, uint128 |-> 8]
Align(t) == CASE t.k = "fixed" -> Align(t.c[1])
              [] t.k \in {"var", "pointer", "callable", "bytes"} -> 8
              [] t.k = "option" -> Align(t.c[1])
              [] t.k \in {"tuple", "struct"} -> Max({1} \cup {Align(t.c[i]) : i \in DOMAIN t.c})
              [] t.k = "fixed_bytes" -> t.n[2]
              [] t.k \in {"fixed_string", "char"} -> CharSize[t.s[1]]
              [] t.k \in DOMAIN PlainAlign -> PlainAlign[t.k]
              [] t.k \in DOMAIN PlainSize -> PlainSize[t.k]
FieldsSize(c, off) == IF c = <<>> THEN off ELSE FieldsSize(Tail(c), Up(off, Align(c[1])) + DSize(c[1]))
(* default data size of a concrete type *)
DSize(t) == CASE t.k = "fixed" -> t.n[1] * DSize(t.c[1])
              [] t.k \in {"var", "bytes"} -> 16
              [] t.k \in {"pointer", "callable"} -> 8
              [] t.k = "option" -> DSize(t.c[1])
              [] t.k \in {"tuple", "struct"} -> Up(FieldsSize(t.c, 0), Align(t))
              [] t.k = "fixed_bytes" -> t.n[1]
              [] t.k = "fixed_string" -> t.n[1] * CharSize[t.s[1]]
              [] t.k = "char" -> CharSize[t.s[1]]
              [] OTHER -> PlainSize[t.k]
=============================================================================
