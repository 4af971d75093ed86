------------------------------- MODULE HalfMC -------------------------------
(* The machine on bits against the meaning, for every value of small types;  *)
(* and the numbers of machine types around every change of behaviour.        *)
EXTENDS DyndHalf, Json
CONSTANTS Mini        \* TRUE: small types; FALSE: numbers to replay
VARIABLES W, b

Wides == IF Mini THEN {FltT(6, 4), FltT(5, 5), FltT(7, 4)} ELSE {FltT(24, 8), FltT(53, 11)}
H == IF Mini THEN FltT(3, 3) ELSE HalfT
Width(T) == T.p + T.eb
(* the exponents from where everything is lost to beyond the largest, and those of the wide type's ends *)
Exps(T) == {e \in 0..(Pow(T.eb) - 1) : e - Emax(T) \in (2 - Emax(H) - H.p - 3)..(Emax(H) + 2)} \cup {0, 1, Pow(T.eb) - 2, Pow(T.eb) - 1}
Heads == {Zeros(10), Zeros(9) \o <<1>>, Zeros(8) \o <<1, 0>>, Ones(10), Ones(9) \o <<0>>, <<1>> \o Zeros(9), <<0>> \o Ones(9)}
Tails(n) == {Zeros(n), Zeros(n - 1) \o <<1>>, <<0>> \o Ones(n - 1), <<1>> \o Zeros(n - 1), <<1>> \o Zeros(n - 2) \o <<1>>, Ones(n)}
Init == /\ W \in Wides
        /\ b \in IF Mini THEN [1..Width(W) -> {0, 1}]
                 ELSE {<<s>> \o UBits(e, W.eb) \o h \o t : s \in {0, 1}, e \in Exps(W), h \in Heads, t \in Tails(W.p - 11)}
Next == FALSE /\ UNCHANGED <<W, b>>
x == DecodeFlt(W, b)
nb == NarrowBits(W, H, b)
y == NarrowTo(H, x)
(* the machine finds what is meant *)
Meaning == nb.err = y.err /\ (y.err # "yes" => IF x.k = "nan" THEN DecodeFlt(H, nb.b).k = "nan" ELSE Same(DecodeFlt(H, nb.b), y.v))
(* what fits goes there and back; nothing is nearer than what is found *)
Back == LET h == SubSeq(b, 1, Width(H))
            wh == WidenBits(H, W, h)
            v == DecodeFlt(H, h)
        IN Mini => /\ Same(DecodeFlt(W, wh), v)
                   /\ LET n == NarrowBits(W, H, wh) IN n.err = "no" /\ (v.k # "nan" => n.b = h)
(* order is kept *)
Monotone == Mini => \A g \in [1..Width(H) -> {0, 1}] :
              LET v == DecodeFlt(H, g) IN
              y.err = "no" /\ x.k = "fin" /\ v.k = "fin" =>
                 /\ (HLess(x, v) => ~HLess(v, y.v))
                 /\ (HLess(v, x) => ~HLess(y.v, v))
Emit == ~Mini => PrintT("GEN " \o ToJson([t |-> IF W.p = 24 THEN "float32" ELSE "float64", b |-> Bytes(b)]))
=============================================================================
