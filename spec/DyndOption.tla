----------------------------- MODULE DyndOption -----------------------------
(* Optional values: the missing value (NA) of every type that has one, and   *)
(* what assignment does with it.                                             *)
EXTENDS DyndNumber

HasNA == {"bool", "int8", "int16", "int32", "int64", "int128", "uint32", "float32", "float64", "complex64", "complex128"}
(* the bytes NA is stored as *)
NaFlt(p) == IF p = 24 THEN <<162, 7, 128, 127>> ELSE <<162, 7, 0, 0, 0, 0, 240, 127>>
NA(T) == CASE T.k = "bool" -> <<2>>
           [] T.k = "int" /\ T.sg = 1 -> [i \in 1..Size(T) |-> IF i = Size(T) THEN 128 ELSE 0]
           [] T.k = "int" /\ T.sg = 0 -> [i \in 1..Size(T) |-> 255]
           [] T.k = "flt" -> NaFlt(T.p)
           [] T.k = "cpx" -> NaFlt(T.el.p) \o NaFlt(T.el.p)
(* any NaN is NA *)
IsNA(T, b) == CASE T.k = "bool" -> b[1] > 1
                [] T.k = "flt" -> Decode(T, b).k = "nan"
                [] OTHER -> b = NA(T)

(* words for a missing value, as bytes *)
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
IsNAWord(w) == w = <<>> \/ w = <<78, 65>> \/ w = <<78, 111, 110, 101>> \/ [i \in DOMAIN w |-> Lower(w[i])] = <<110, 117, 108, 108>>
=============================================================================
