------------------------------ MODULE TextTrace -----------------------------
(* Accepts recorded assignments of texts to numbers exactly when each element*)
(* gets the number its text denotes, or the assignment raises an error       *)
(* because some text denotes no value of the type; and assignments between   *)
(* types that have no conversion exactly when they raise an error.           *)
EXTENDS DyndText, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
T == Types[c.dt]
Mode == IF c.mode = "none" THEN "fractional" ELSE c.mode
Used == {c.ws[i] : i \in DOMAIN c.ws}
Miss(w) == c.do = 1 /\ IsNAWord(w)
ToNA(w) == c.do = 1 /\ ~Miss(w) /\ T.k # "cpx" /\ TextOk(T, w, Mode, NA(T)) \* a number that NA is stored as
Must(w) == ~Miss(w) /\ TextMust(T, w, Mode)
May(w) == IF Miss(w) THEN c.sk = "fixed" /\ c.way = "assign" ELSE (TextMay(T, w, Mode) \/ c.dt \in {"int128", "uint128"} \/ ToNA(w))
Good(w, b) == IF Miss(w) THEN IsNA(T, b) \/ (c.sk = "fixed" /\ c.way = "assign" /\ Mode = "nocheck") ELSE TextOk(T, w, Mode, b)
(* the pairs of types with a conversion *)
SInts == {"int8", "int16", "int32", "int64"}
Offered == CASE c.way = "assign" -> c.dt \in SInts \/ (c.sk = "string" /\ c.dt \in {"bool", "float32", "float64"})
             [] c.way = "quoted" -> c.dt \notin {"complex64", "complex128"}
EvText ==
  /\ ev.a = "text" /\ r.e # "CRASH"
  /\ IF ~Offered \/ \E w \in Used : Must(w) THEN r.e # ""
     ELSE IF r.e # "" THEN \E w \in Used : May(w)
     ELSE /\ r.s = c.ws /\ Len(r.v) = Len(c.ws)
          /\ \A i \in DOMAIN c.ws : Good(c.ws[i], r.v[i])
(* pairs of types.  Kinds: num, opt (an optional number), text, type, and bytes, record, tuple, which nothing converts to or from *)
Fits == Len(c.ss) <= Len(c.ds) /\ \A i \in DOMAIN c.ss : c.ss[i] \in {1, c.ds[Len(c.ds) - Len(c.ss) + i]}
EvPair ==
  /\ ev.a = "pair" /\ r.e # "CRASH"
  /\ IF ~Fits \/ (c.sk # c.dk /\ {c.sk, c.dk} \cap {"bytes", "record", "tuple"} # {})
        \/ (c.sk = "type" /\ c.dk \in {"num", "opt"}) \/ (c.dk = "type" /\ c.sk \in {"num", "opt"})
        \/ (c.sk = c.dk /\ c.sk \in {"record", "tuple"} /\ c.snf # c.dnf)
     THEN r.e # ""
     ELSE (c.st = c.dt /\ c.sk # "odd") \/ (c.sk = "num" /\ c.dk \in {"num", "opt"}) => r.e = ""
Init == l = 1
Next == l <= Len(TraceLog) /\ (EvText \/ EvPair) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
