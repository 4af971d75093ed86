----------------------------- MODULE CompareMC -----------------------------
(* The laws of an order on every triple of numbers of small machine types    *)
(* and on every pair of short texts, and the pairs to replay.                *)
EXTENDS DyndCompare, Json
CONSTANTS MaxText, Ks, Wide
VARIABLES part, S, T, x, y, z

Mini == IF Wide THEN <<IntT(4, 1), IntT(3, 0), FltT(3, 3)>> ELSE <<IntT(3, 1), IntT(2, 0), FltT(2, 3)>>
W(U) == IF U.k = "int" THEN U.w ELSE U.p + U.eb
All(U) == [1..W(U) -> {0, 1}]
Points == {97, 122, 233, 65535, 128512}
Texts == UNION {[1..n -> Points] : n \in 0..MaxText}
None == <<-1>>
Init == \/ part = "num" /\ S \in 1..Len(Mini) /\ T \in 1..Len(Mini) /\ x \in All(Mini[S]) /\ y = None /\ z = None
        \/ part = "text" /\ S = 0 /\ T = 0 /\ x \in Texts /\ y = None /\ z = None
Next == \/ part = "num" /\ y = None /\ y' \in All(Mini[T]) /\ UNCHANGED <<part, S, T, x, z>>
        \/ part = "num" /\ y # None /\ z = None /\ z' \in All(Mini[S]) /\ UNCHANGED <<part, S, T, x, y>>
        \/ part = "text" /\ y = None /\ y' \in Texts /\ UNCHANGED <<part, S, T, x, z>>
a == DecodeBits(Mini[S], x)
b == DecodeBits(Mini[T], y)
d == DecodeBits(Mini[S], z)
Num2 == part = "num" /\ y # None
Num3 == part = "num" /\ z # None
(* numbers as integers on a common scale *)
Scaled(v) == LET n == BitsVal(v.m) * Pow(v.e + 14) IN IF v.s = 1 THEN -n ELSE n
Value(v) == IF v.k = "inf" THEN (IF v.s = 1 THEN -10000000 ELSE 10000000) ELSE Scaled(v)
Meaning == Num2 => Rel(a, b) = (IF a.k = "nan" \/ b.k = "nan" THEN "un" ELSE IF Value(a) < Value(b) THEN "lt" ELSE IF Value(a) > Value(b) THEN "gt" ELSE "eq")
Ops == {"less", "less_equal", "equal", "not_equal", "greater_equal", "greater"}
Yes(op, v, w) == Verdict(op, Rel(v, w)) = "t"
Mirror == Num2 => /\ Yes("less", a, b) = Yes("greater", b, a) /\ Yes("less_equal", a, b) = Yes("greater_equal", b, a)
                  /\ Yes("equal", a, b) = Yes("equal", b, a) /\ Yes("not_equal", a, b) = ~Yes("equal", a, b)
                  /\ (Rel(a, b) = "un" => \A op \in Ops \ {"not_equal"} : ~Yes(op, a, b))
                  /\ (Rel(a, b) # "un" => Yes("less_equal", a, b) = ~Yes("greater", a, b))
Transitive == Num3 => /\ (Yes("less", a, b) /\ Yes("less", b, d) => Yes("less", a, d))
                      /\ (Yes("less_equal", a, b) /\ Yes("less_equal", b, d) => Yes("less_equal", a, d))
                      /\ (Yes("equal", a, b) /\ Yes("equal", b, d) => Yes("equal", a, d))
(* UTF-8 *)
Enc(p) == IF p < 128 THEN <<p>>
          ELSE IF p < 2048 THEN <<192 + p \div 64, 128 + (p % 64)>>
          ELSE IF p < 65536 THEN <<224 + p \div 4096, 128 + ((p \div 64) % 64), 128 + (p % 64)>>
          ELSE <<240 + p \div 262144, 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
RECURSIVE Utf(_)
Utf(t) == IF t = <<>> THEN <<>> ELSE Enc(t[1]) \o Utf(Tail(t))
(* the order of the bytes is the order of the characters *)
ByPoint == part = "text" /\ y # None => SeqRel(Utf(x), Utf(y), 1) = SeqRel(x, y, 1)
Emit == part = "text" /\ y # None => PrintT("GEN " \o ToJson([k |-> "text", x |-> Utf(x), y |-> Utf(y)]))

(* -- boundary numbers of the machine types *)
Near == {Fin(sg, IF dd >= 0 THEN (IF k = 0 THEN UBits(1 + dd, 2) ELSE <<1>> \o Zeros(k - 1) \o <<dd>>)
                 ELSE (IF k = 0 THEN <<0>> ELSE Ones(k)), j) : sg \in {0, 1}, k \in Ks, dd \in {-1, 0, 1}, j \in {-1, 0}}
Special == {Inf(0), Inf(1), Nan, Zero(1), Fin(0, Ones(24), 104), Fin(1, Ones(53), 971), Fin(0, <<1>>, -149), Fin(0, <<1>>, -1074), Fin(1, <<1>>, -149)}
Can(U, v) == CASE U.k = "int" -> IsInt(v) /\ InRange(U, v) [] U.k = "bool" -> IsZero(v) \/ Same(v, One) [] U.k = "flt" -> Same(Round(U, v), v)
Cases == [n \in RealNames |-> {Bytes(EncodeBits(Types[n], v)) : v \in {w \in Near \cup (IF Types[n].k = "flt" THEN Special ELSE {}) : Can(Types[n], w)}}]
ASSUME PrintT("GEN " \o ToJson([k |-> "num", c |-> Cases]))
=============================================================================
