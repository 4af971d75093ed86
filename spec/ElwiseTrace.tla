----------------------------- MODULE ElwiseTrace ----------------------------
(* Accepts recorded calls of elementwise callables exactly when result type, *)
(* result value, destination and arguments are what DyndElwise says.         *)
EXTENDS DyndElwise, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r
Done == l' = l + 1
Refused == r.e # "" /\ r.e # "CRASH"
Ok == r.e = ""

(* the scalar functions lifted by the callables under test *)
B(b) == IF b THEN 1 ELSE 0
NA == -9999                       \* a missing value of an optional type
IsOpt(t) == t \in {"?bool", "?int8", "?int16", "?int32", "?int64", "?uint32", "?float32", "?float64"}
Plain(t) == CASE t = "?bool" -> "bool" [] t = "?int8" -> "int8" [] t = "?int16" -> "int16" [] t = "?int32" -> "int32"
              [] t = "?int64" -> "int64" [] t = "?uint32" -> "uint32" [] t = "?float32" -> "float32" [] t = "?float64" -> "float64"
              [] OTHER -> t
Apply(f, x) ==
  CASE f = "is_na" -> B(x[1] = NA)
    [] f = "assign_na" -> NA
    [] \E i \in DOMAIN x : x[i] = NA -> NA      \* a missing operand makes the result missing
    [] f = "lin1" -> 3 * x[1] + 1
    [] f \in {"lin2", "mix2"} -> 10 * x[1] + x[2]
    [] f \in {"lin3", "mix3"} -> 100 * x[1] + 10 * x[2] + x[3]
    [] f = "lin4" -> 1000 * x[1] + 100 * x[2] + 10 * x[3] + x[4]
    [] f = "add" -> x[1] + x[2]
    [] f = "subtract" -> x[1] - x[2]
    [] f = "multiply" -> x[1] * x[2]
    [] f = "minus" -> -x[1]
    [] f = "plus" -> x[1]
    [] f = "less" -> B(x[1] < x[2])
    [] f = "less_equal" -> B(x[1] <= x[2])
    [] f = "greater" -> B(x[1] > x[2])
    [] f = "greater_equal" -> B(x[1] >= x[2])
    [] f = "equal" -> B(x[1] = x[2])
    [] f = "not_equal" -> B(x[1] # x[2])
    [] f = "logical_and" -> B(x[1] # 0 /\ x[2] # 0)
    [] f = "logical_or" -> B(x[1] # 0 \/ x[2] # 0)
    [] f = "logical_not" -> B(x[1] = 0)
RetOf(f, Ts) ==
  CASE f \in {"lin1", "lin2", "lin3", "lin4"} -> "int32"
    [] f = "mix2" -> "float64"
    [] f = "mix3" -> "int64"
    [] f \in {"add", "subtract", "multiply", "minus", "plus"} -> Plain(DT(Ts[1]).t)
    [] OTHER -> "bool"
RetT(f, Ts) == IF f = "is_na" THEN "bool"
               ELSE IF \E i \in DOMAIN Ts : IsOpt(DT(Ts[i]).t)
               THEN LET t == RetOf(f, Ts) IN CHOOSE o \in {"?bool", "?int8", "?int16", "?int32", "?int64", "?uint32", "?float32", "?float64"} : Plain(o) = t
               ELSE RetOf(f, Ts)

Custom == {"lin1", "lin2", "lin3", "lin4", "mix2", "mix3"}
ArgTs == [i \in DOMAIN c.args |-> c.args[i].ty]
ArgVs == [i \in DOMAIN c.args |-> c.args[i].v]
Fn(vs) == Apply(c.f, vs)
HasDst == "dst" \in DOMAIN c
R == ResType(ArgTs, MaxNdim(ArgTs, Len(ArgTs)), [k |-> "leaf", t |-> RetT(c.f, ArgTs)])

PlainCall ==
  LET nd == MaxNdim(ArgTs, Len(ArgTs)) IN
  IF IsErr(R) THEN Refused
  ELSE IF ~ValOk(R, ArgTs, ArgVs, nd) THEN Refused
  ELSE Ok /\ Bare(r.T) = R /\ r.v = Val(Fn, R, ArgTs, ArgVs, nd) /\ r.args = ArgVs
DstCall ==
  LET D == c.dst.ty nd == Ndim(c.dst.ty) init == "raw" \notin DOMAIN c.dst IN
  IF nd < MaxNdim(ArgTs, Len(ArgTs)) THEN Refused
  \* a built-in scalar function is selected by its arguments alone
  ELSE IF c.f \notin Custom /\ MaxNdim(ArgTs, Len(ArgTs)) = 0 /\ nd > 0 THEN Refused
  \* the signature (Dims... * T, ...) requires fixed sizes of the arguments to agree
  ELSE IF c.f \in Custom /\ IsErr(R) THEN Refused
  ELSE IF ~DstTypeOk(D, ArgTs, nd) THEN Refused
  ELSE IF ~DstOk(D, c.dst.v, init, ArgTs, ArgVs, nd) THEN Refused
  ELSE /\ Ok /\ r.same = 1 /\ Bare(r.dT) = D /\ r.dv = DstVal(Fn, D, c.dst.v, init, ArgTs, ArgVs, nd)
       /\ r.v = r.dv /\ r.args = ArgVs

EvCall == l <= Len(TraceLog) /\ ev.a = "call" /\ Done /\ IF HasDst THEN DstCall ELSE PlainCall
Init == l = 1
Next == EvCall
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
