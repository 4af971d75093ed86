------------------------------ MODULE DyndMatch ------------------------------
(* Patterns: which types a pattern stands for, the variable bindings that    *)
(* show it, and substitution of bindings into a pattern.                     *)
(* A binding environment maps a name to [r |-> role, a |-> type]; roles are  *)
(* "type" (a type variable), "dim" (a dimension over void), "exp" (an        *)
(* exponent), "frag" (a list of dimensions, -1 for var, -2 for Fixed) and    *)
(* "con" (a constructor: only the trivial one, void).                        *)
EXTENDS DyndType

NoEnv == [x \in {} |-> 0]
None == [ok |-> FALSE, e |-> NoEnv]
Yes(e) == [ok |-> TRUE, e |-> e]
Void == Leaf("void")
Head1(q) == [q EXCEPT !.c = <<Void>>]
Frag(d) == Node("fragment", d, <<>>, <<>>)
IsDim(q) == q.k \in {"fixed", "var"}
Tag(q) == IF q.k = "fixed" THEN q.n[1] ELSE IF q.k = "var" THEN -1 ELSE -2
RECURSIVE Tags(_, _)
Tags(q, n) == IF n = 0 THEN <<>> ELSE <<Tag(q)>> \o Tags(El(q), n - 1)

(* one more occurrence of a variable; bound values must agree *)
Bind(e, name, role, a) ==
  IF name \notin DOMAIN e THEN Yes((name :> [r |-> role, a |-> a]) @@ e)
  ELSE IF e[name] = [r |-> role, a |-> a] THEN Yes(e) ELSE None
(* dimension lists bound to the same name broadcast together *)
BTag(x, y) == IF x = y \/ y = 1 THEN x ELSE IF x = 1 THEN y ELSE IF x < 0 THEN y ELSE IF y < 0 THEN x ELSE -9
RECURSIVE BTags(_, _)
BTags(a, b) == IF Len(a) < Len(b) THEN BTags(b, a)
               ELSE [i \in DOMAIN a |-> IF i <= Len(a) - Len(b) THEN a[i] ELSE BTag(a[i], b[i - (Len(a) - Len(b))])]
BindFrag(e, name, d) ==
  IF name = "" THEN Yes(e)
  ELSE IF name \notin DOMAIN e THEN Yes((name :> [r |-> "frag", a |-> Frag(d)]) @@ e)
  ELSE IF e[name].r # "frag" THEN None
  ELSE LET b == BTags(e[name].a.n, d) IN
       IF -9 \in {b[i] : i \in DOMAIN b} THEN None ELSE Yes((name :> [r |-> "frag", a |-> Frag(b)]) @@ e)

Kind(k) == CASE k = "Bool" -> {"bool"} [] k = "Int" -> Ints [] k = "UInt" -> UInts [] k = "Float" -> Floats
             [] k = "Complex" -> Complexes [] k = "Bytes" -> {"bytes", "fixed_bytes"} [] k = "FixedBytes" -> {"fixed_bytes"}
             [] k = "String" -> {"string", "fixed_string"} [] k = "FixedString" -> {"fixed_string"} [] OTHER -> {}
RECURSIVE Match(_, _, _), MatchAll(_, _, _), MatchBase(_, _, _, _)
MatchAll(ps, qs, e) ==   \* the first patterns against the first types
  IF ps = <<>> THEN Yes(e)
  ELSE LET m == Match(ps[1], qs[1], e) IN IF m.ok THEN MatchAll(Tail(ps), Tail(qs), m.e) ELSE None
MatchBase(b, q, n, e) == \* n leading dimensions that are all instances of b
  IF n = 0 THEN Yes(e)
  ELSE LET m == Match([b EXCEPT !.c = <<Void>>], IF IsDim(q) THEN Head1(q) ELSE q, e) IN
       IF m.ok THEN MatchBase(b, El(q), n - 1, m.e) ELSE None
Fields(p, q, e) ==
  IF Len(p.c) = Len(q.c) \/ (p.n[1] = 1 /\ Len(q.c) >= Len(p.c)) THEN MatchAll(p.c, q.c, e) ELSE None

(* q is a concrete type *)
Match(p, q, e) ==
  CASE p.k = "Any" -> Yes(e)
    [] p.k = "Scalar" -> IF Ndim(q) = 0 THEN Yes(e) ELSE None
    [] p.k \in (KindNames \ {"Any", "Scalar"}) -> IF q.k \in Kind(p.k) THEN Yes(e) ELSE None
    [] p.k = "typevar" -> IF Ndim(q) = 0 THEN Bind(e, p.s[1], "type", q) ELSE None
    [] p.k = "tvcon" -> LET m == Match(p.c[1], q, e) IN IF m.ok THEN Bind(m.e, p.s[1], "con", Void) ELSE None
    [] p.k = "Dim" -> IF IsDim(q) THEN Match(p.c[1], El(q), e) ELSE None
    [] p.k = "Fixed" -> IF q.k = "fixed" THEN Match(p.c[1], El(q), e) ELSE None
    [] p.k = "fixed" -> IF q.k = "fixed" /\ q.n = p.n THEN Match(p.c[1], El(q), e) ELSE None
    [] p.k = "var" -> IF q.k = "var" THEN Match(p.c[1], El(q), e) ELSE None
    [] p.k = "tvdim" ->
         IF ~IsDim(q) THEN None
         ELSE LET b == Bind(e, p.s[1], "dim", Head1(q)) IN IF b.ok THEN Match(p.c[1], El(q), b.e) ELSE None
    [] p.k = "ellipsis" ->
         LET n == Ndim(q) - Ndim(p.c[1])
             b == BindFrag(e, p.s[1], Tags(q, n))
         IN IF n < 0 THEN None ELSE IF b.ok THEN Match(p.c[1], Strip(q, n), b.e) ELSE None
    [] p.k = "powdim" ->
         LET n == Ndim(q) - Ndim(p.c[2])
             b == Bind(e, p.s[1], "exp", FixedDim(n, Void))
             m == MatchBase(p.c[1], q, n, b.e)
         IN IF n < 0 THEN None ELSE IF b.ok /\ m.ok THEN Match(p.c[2], Strip(q, n), m.e) ELSE None
    [] p.k \in {"option", "pointer"} -> IF q.k = p.k THEN Match(p.c[1], q.c[1], e) ELSE None
    [] p.k = "tuple" -> IF q.k = "tuple" THEN Fields(p, q, e) ELSE None
    [] p.k = "struct" -> IF q.k = "struct" /\ Len(q.s) >= Len(p.s) /\ SubSeq(q.s, 1, Len(p.s)) = p.s THEN Fields(p, q, e) ELSE None
    [] p.k = "callable" -> IF q.k = "callable" THEN MatchAll(p.c, q.c, e) ELSE None
    [] OTHER -> IF p = q THEN Yes(e) ELSE None

(* ---- substitution.  conc: the result must be concrete.  Error if there is none *)
Bad1 == Error
RECURSIVE Subst(_, _, _), SubstAll(_, _, _), Pow(_, _, _), Apply(_, _)
SubstAll(c, e, conc) == [i \in DOMAIN c |-> Subst(c[i], e, conc)]
Node2(t, c) == IF \E i \in DOMAIN c : c[i] = Error THEN Error ELSE [t EXCEPT !.c = c]
Apply(d, t) ==      \* the dimensions of a fragment over t
  IF t = Error THEN Error
  ELSE IF d = <<>> THEN t
  ELSE LET x == Apply(Tail(d), t) IN IF d[1] = -1 THEN VarDim(x) ELSE IF d[1] = -2 THEN Dim("Fixed", x) ELSE FixedDim(d[1], x)
Pow(b, n, t) == IF t = Error THEN Error ELSE IF n = 0 THEN t ELSE [b EXCEPT !.c = <<Pow(b, n - 1, t)>>]
Subst(p, e, conc) ==
  LET Has(n) == n \in DOMAIN e
      kids == SubstAll(p.c, e, conc)
      Keep(t) == IF conc THEN Error ELSE t
  IN
  IF ~Symbolic(p) /\ p.k # "callable" THEN p
  ELSE CASE p.k \in KindNames -> Keep(p)
    [] p.k \in {"Fixed", "Dim"} -> Keep(Node2(p, kids))
    [] p.k = "typevar" -> IF ~Has(p.s[1]) THEN Keep(p)
                          ELSE IF e[p.s[1]].r # "type" \/ (conc /\ Symbolic(e[p.s[1]].a)) THEN Error ELSE e[p.s[1]].a
    [] p.k = "tvdim" -> IF ~Has(p.s[1]) THEN Keep(Node2(p, kids))
                        ELSE IF e[p.s[1]].r # "dim" \/ (conc /\ e[p.s[1]].a.k = "Fixed") THEN Error
                        ELSE Node2(e[p.s[1]].a, kids)
    [] p.k = "ellipsis" -> IF p.s[1] = "" THEN Error
                           ELSE IF ~Has(p.s[1]) THEN Keep(Node2(p, kids))
                           ELSE IF e[p.s[1]].r # "frag" \/ (conc /\ -2 \in {e[p.s[1]].a.n[i] : i \in DOMAIN e[p.s[1]].a.n}) THEN Error
                           ELSE Apply(e[p.s[1]].a.n, kids[1])
    [] p.k = "powdim" ->
         LET b == p.c[1]
             el == Subst(p.c[2], e, conc)
             base == IF b.k # "tvdim" \/ ~Has(b.s[1]) THEN b ELSE IF e[b.s[1]].r = "dim" THEN e[b.s[1]].a ELSE Error
         IN IF ~Has(p.s[1]) THEN (IF base = Error \/ el = Error THEN Error ELSE Keep([p EXCEPT !.c = <<base, el>>]))
            ELSE IF e[p.s[1]].r # "exp" THEN Error
            ELSE LET n == e[p.s[1]].a.n[1] IN
                 IF n = 0 THEN el
                 ELSE IF base = Error \/ (conc /\ base.k \in {"Fixed", "tvdim"}) THEN Error ELSE Pow(base, n, el)
    [] p.k = "tvcon" -> IF ~Has(p.s[1]) THEN Keep(Node2(p, kids)) ELSE IF e[p.s[1]].r # "con" THEN Error ELSE kids[1]
    [] p.k \in {"tuple", "struct"} -> IF conc /\ p.n[1] = 1 THEN Error ELSE Node2(p, kids)
    [] OTHER -> Node2(p, kids)

(* ---- where matching is promised *)
RECURSIVE Simple(_), Under(_, _), Conc(_), Open(_), Named(_)
Open(p) == p.k \in {"ellipsis", "powdim"} \/ (p.k \in Dims /\ Open(El(p)))
Under(p, ks) == p.k \in ks \/ \E i \in DOMAIN p.c : Under(p.c[i], ks)
(* no option of a dimension, and dimension lists without two open parts *)
Simple(p) == /\ \A i \in DOMAIN p.c : Simple(p.c[i])
             /\ p.k = "option" => Ndim(p.c[1]) = 0
             /\ p.k = "tvcon" => Ndim(p.c[1]) = 0
             /\ p.k \in {"ellipsis", "powdim"} => ~Open(El(p))
Conc(q) == ~Symbolic(q) /\ (\A i \in DOMAIN q.c : Conc(q.c[i]))
(* the roles in which names are used *)
RECURSIVE Roles(_)
Roles(p) == UNION {Roles(p.c[i]) : i \in DOMAIN p.c} \cup
            (CASE p.k = "typevar" -> {<<p.s[1], "type">>} [] p.k = "tvdim" -> {<<p.s[1], "dim">>}
               [] p.k = "ellipsis" -> {<<p.s[1], "frag">>} [] p.k = "powdim" -> {<<p.s[1], "exp">>}
               [] p.k = "tvcon" -> {<<p.s[1], "con">>} [] OTHER -> {})
OneRole(p) == \A x \in Roles(p), y \in Roles(p) : x[1] = y[1] => x[2] = y[2]
Promised(p) == Simple(p) /\ OneRole(p)
(* every place of the pattern that is left open has a name of its own *)
Named(p) == /\ ~Under(p, KindNames \cup {"Dim", "Fixed", "tvcon"})
            /\ \A i \in DOMAIN p.c : ~Under(p.c[i], {"callable"})   \* a callable type inside another type is not substituted into
            /\ \A i \in DOMAIN p.c : Named(p.c[i])
            /\ p.k = "ellipsis" => p.s[1] # ""
            /\ p.k \in {"tuple", "struct"} => p.n[1] = 0
=============================================================================
