----------------------------- MODULE ReduceTrace ----------------------------
(* Accepts recorded calls of reductions exactly when type and value of the   *)
(* result are what DyndReduce says and the arguments are unchanged.          *)
EXTENDS DyndReduce, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
Refused == r.e # "" /\ r.e # "CRASH"
Ok == r.e = ""

B(b) == IF b THEN 1 ELSE 0
(* what the driver reports for numbers of more than nine digits *)
Beyond == -1999999999
FBeyond == -1999999998
Lim(t, x) == IF t \in {"float32", "float64"} THEN FBeyond
             ELSE IF t \in {"int32", "int64"} \/ (x = "max" /\ t \in {"uint32"}) THEN Beyond
             ELSE IF x = "max" THEN (CASE t = "int8" -> 127 [] t = "int16" -> 32767 [] t = "uint8" -> 255 [] t = "uint16" -> 65535)
             ELSE (CASE t = "int8" -> -128 [] t = "int16" -> -32768 [] OTHER -> 0)
RECURSIVE Fold(_, _, _)
T0 == c.args[1].ty
(* sums of short integers wrap around *)
Wrap(t, x) == CASE t = "int8" -> ((x + 128) % 256) - 128 [] t = "uint8" -> x % 256 [] OTHER -> x
Step(f, a, x) ==
  CASE f = "sum" -> Wrap(DT(T0).t, a + x)
    [] f \in {"rsum0", "rsum100"} -> a + x
    [] f = "rdig" -> (7 * a + x) % 9973
    [] f = "rmax2" -> a + (IF x[1] > x[2] THEN x[1] ELSE x[2])
    [] f = "all" -> B(a = 1 /\ x = 1)
    [] f = "all_equal" -> B(a = 1 /\ x[1] = x[2])
Fold(f, a, s) == IF s = <<>> THEN a ELSE Fold(f, Step(f, a, Head(s)), Tail(s))
Extreme(f, t, s) ==
  IF s = <<>> THEN Lim(t, IF f = "max" THEN "min" ELSE "max")
  ELSE LET X == {s[i] : i \in DOMAIN s} IN
       IF f = "max" THEN CHOOSE x \in X : \A y \in X : y <= x ELSE CHOOSE x \in X : \A y \in X : x <= y
Start(f) == CASE f \in {"sum", "rsum0"} -> 0 [] f \in {"rsum100", "rmax2"} -> 100 [] OTHER -> 1

AllAxes == 0..(Ndim(T0) - 1)
Axes == IF "axes" \in DOMAIN c.o THEN {c.o.axes[i] : i \in DOMAIN c.o.axes} ELSE AllAxes
KeepDims == "keep" \in DOMAIN c.o /\ c.o.keep = 1
Ret == CASE c.f \in {"sum", "max", "min"} -> DT(T0) [] c.f \in {"all", "all_equal"} -> [k |-> "leaf", t |-> "bool"]
         [] OTHER -> [k |-> "leaf", t |-> "int32"]
S(s) == IF c.f \in {"max", "min"} THEN Extreme(c.f, DT(T0).t, s) ELSE Fold(c.f, Start(c.f), s)
Two == Len(c.args) = 2
Arg == IF Two THEN Zip(T0, c.args[1].v, c.args[2].v) ELSE c.args[1].v

EvReduce ==
  /\ l <= Len(TraceLog) /\ ev.a = "call" /\ l' = l + 1
  /\ IF (Two /\ ~(SameDims(T0, c.args[2].ty) /\ VarOk(T0, 0, {}))) \/ ~VarOk(T0, 0, Axes)
     THEN Refused
     ELSE /\ Ok
          /\ Bare(r.T) = RedType(T0, 0, Axes, KeepDims, Ret)
          /\ r.v = Reduce(S, T0, Arg, Axes, KeepDims)
          /\ r.args = [i \in DOMAIN c.args |-> c.args[i].v]
Init == l = 1
Next == EvReduce
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
