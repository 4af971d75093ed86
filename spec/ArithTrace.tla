----------------------------- MODULE ArithTrace ----------------------------
(* Accepts recorded operations exactly when each result is the one the       *)
(* operands call for.                                                        *)
EXTENDS DyndArith, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == TraceLog[l]
c == ev.c
r == ev.r

TypeOf(n) == Types[n]
At(o, i) == o.v[IF Len(o.v) = 1 THEN 1 ELSE i]
Max(a, b) == IF a > b THEN a ELSE b
N == IF c.u = 1 THEN Len(c.l.v) ELSE IF Len(c.l.v) = 0 \/ Len(c.r.v) = 0 THEN 0 ELSE Max(Len(c.l.v), Len(c.r.v))
Compat == c.u = 1 \/ Len(c.l.v) = Len(c.r.v) \/ Len(c.l.v) = 1 \/ Len(c.r.v) = 1
(* a number of type n, or a pair *)
Num(n, b) == IF n \in Cpx THEN <<Decode(Types[n].el, Half(b, 0)), Decode(Types[n].el, Half(b, 1))>> ELSE Decode(Types[n], b)
Name(T) == RealName(T)
CpxN == IF c.l.n = "complex128" \/ c.r.n = "complex128" THEN "complex128" ELSE "complex64"
IsCpxOp == c.l.n \in Cpx
ResT == IF IsCpxOp THEN Types[CpxN] ELSE ResultT(c.op, Types[c.l.n], IF c.u = 1 THEN Types[c.l.n] ELSE Types[c.r.n])
ResName == IF IsCpxOp THEN (IF CpxN = "complex128" THEN "complex[float64]" ELSE "complex[float32]")
           ELSE IF c.op = "plus" \/ c.op = "minus" THEN (IF c.l.n = "bool" THEN "bool" ELSE Name(ResT)) ELSE Name(ResT)
Has0 == IF c.u = 1 THEN Has1(c.op, c.l.n) ELSE Has(c.op, c.l.n, c.r.n)
Want(i) ==
  IF c.u = 1 THEN Un(c.op, Types[c.l.n], Num(c.l.n, c.l.v[i]))
  ELSE IF IsCpxOp THEN CpxBin(c.op, Types[CpxN].el, Num(c.l.n, At(c.l, i)), Num(c.r.n, At(c.r, i)))
  ELSE Bin(c.op, Types[c.l.n], Num(c.l.n, At(c.l, i)), Types[c.r.n], Num(c.r.n, At(c.r, i)))
(* are the bytes those of the value? *)
RealIs(T, v, b) == CASE T.k = "flt" -> LET d == Decode(T, b) IN IF IsCpxOp THEN SameValue(d, v) ELSE Same(d, v)
                     [] OTHER -> b = Bytes(EncodeBits(T, v))
Is(v, b) == IF IsCpxOp THEN RealIs(ResT.el, v[1], Half(b, 0)) /\ RealIs(ResT.el, v[2], Half(b, 1))
            ELSE IF ResName = "bool" THEN b = (IF IsZero(v) THEN <<0>> ELSE <<1>>) ELSE RealIs(ResT, v, b)
EvArith ==
  /\ ev.a = "arith" /\ r.e # "CRASH"
  /\ IF ~Compat \/ Has0 = "no" THEN r.e # ""
     ELSE IF Has0 = "may" THEN TRUE
     ELSE LET w == [i \in 1..N |-> Want(i)]
              bad == \E i \in 1..N : w[i].err = "yes"
          IN IF bad THEN r.e # "" /\ r.e2 # ""
             ELSE /\ r.e = "" /\ r.e2 = "" /\ r.t = ResName /\ Len(r.v) = N
                  /\ \A i \in 1..N : w[i].err = "any" \/ (Is(w[i].v, r.v[i]) /\ Is(w[i].v, r.v2[i]))
(* the operands are not touched *)
  /\ r.same = 1
(* a += b and a /= b: a has the dimensions, and only plain numbers but bool are offered *)
PlainNum(n) == n \in Reals \ {"bool"}
EvCompound ==
  /\ ev.a = "compound" /\ r.e # "CRASH"
  /\ LET D == Types[c.l.n]
         fits == (Len(c.r.v) = Len(c.l.v) /\ c.l.dim = 1) \/ c.r.dim = 0
         w == [i \in 1..Len(c.l.v) |-> InPlace(c.op, D, Num(c.l.n, c.l.v[i]), Types[c.r.n], Num(c.r.n, At(c.r, i)))]
     IN IF c.l.n \in Cpx \/ c.r.n \in Cpx THEN TRUE
        ELSE IF ~fits \/ ~PlainNum(c.l.n) \/ ~PlainNum(c.r.n) THEN r.e # "" /\ r.v = c.l.v
        ELSE IF \E i \in DOMAIN w : w[i].err = "yes" THEN r.e # ""
        ELSE /\ r.e = "" /\ Len(r.v) = Len(c.l.v)
             /\ \A i \in DOMAIN w : w[i].err = "any" \/ (IF D.k = "flt" THEN Same(Decode(D, r.v[i]), w[i].v) ELSE r.v[i] = Bytes(EncodeBits(D, w[i].v)))
  /\ r.same = 1
Text(p) == (IF p.o = 1 THEN "?" ELSE "") \o (CASE p.n = "complex64" -> "complex[float32]" [] p.n = "complex128" -> "complex[float64]" [] OTHER -> p.n)
EvPromote ==
  /\ ev.a = "promote" /\ r.e # "CRASH"
  /\ LET p == Promote(c.p, c.q) IN IF p.n = "error" THEN r.e # "" ELSE r.e = "" /\ r.t = Text(p)
Init == l = 1
Next == l <= Len(TraceLog) /\ (EvArith \/ EvCompound \/ EvPromote) = TRUE /\ l' = l + 1
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 >= Len(TraceLog) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
