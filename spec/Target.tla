------------------------------- MODULE Target -------------------------------
(***************************************************************************)
(* The user's side of a run: prior, support, likelihood.  c is the         *)
(* configuration record of the trace.                                      *)
(***************************************************************************)
EXTENDS Floats

Half == FDec("0.5")
Log2Pi == FLog(FMul(FInt(2), FDec("3.141592653589793")))
Low(k) == IF k.k \in {"norm", "rexp", "laplace", "logistic", "cauchy"} THEN FNegInf ELSE k.a
High(k) == CASE k.k \in {"unif", "beta22"} -> FAdd(k.a, k.b)
             [] k.k = "rexp" -> k.a
             [] OTHER -> FPosInf
InComp(k, x) == FIsFin(x) /\ FLe(Low(k), x) /\ FLe(x, High(k))
Z(k, x) == FDiv(FSub(x, k.a), k.b)
\* log-density of one component at x
CompLogPdf(k, x) ==
  IF ~InComp(k, x) THEN FNegInf
  ELSE LET z == Z(k, x)  lb == FLog(k.b) IN
  CASE k.k = "norm" -> FSub(FNeg(FMul(Half, FMul(z, z))), FAdd(lb, FMul(Half, Log2Pi)))
    [] k.k = "unif" -> FNeg(lb)
    [] k.k = "expon" -> FSub(FNeg(z), lb)
    [] k.k = "rexp" -> FSub(z, lb)
    [] k.k = "beta22" -> FSub(FAdd(FLog(FInt(6)), FAdd(FLog(z), FLog1p(FNeg(z)))), lb)
    [] k.k = "laplace" -> FSub(FNeg(FAbs(z)), FAdd(lb, FLog(FInt(2))))
    [] k.k = "logistic" -> FSub(FSub(FNeg(FAbs(z)), lb), FMul(FInt(2), FLog1p(FExp(FNeg(FAbs(z))))))
    [] k.k = "gamma2" -> FSub(FSub(FLog(z), z), lb)
    [] k.k = "halfnorm" -> FSub(FSub(FMul(Half, FLog(FDiv(FInt(2), FDec("3.141592653589793")))), FMul(Half, FMul(z, z))), lb)
    [] k.k = "cauchy" -> FNeg(FAdd(FAdd(lb, FLog(FDec("3.141592653589793"))), FLog1p(FMul(z, z))))

InBounds(c, x) == \A i \in 1..Len(c.prior) : InComp(c.prior[i], x[i])
RECURSIVE PriorSum(_, _, _)
PriorSum(comps, x, i) == IF i = 0 THEN F0 ELSE FAdd(PriorSum(comps, x, i - 1), CompLogPdf(comps[i], x[i]))
Cut(c, x) == c.hascut /\ ~FLe(FAdd(x[1], x[Len(x)]), c.cut)
LogPrior(c, x) == IF ~InBounds(c, x) \/ Cut(c, x) THEN FNegInf ELSE PriorSum(c.prior, x, Len(x))
InSupport(c, x) == InBounds(c, x) /\ FIsFin(LogPrior(c, x))

RECURSIVE Quad(_, _, _)
Quad(c, x, i) == IF i = 0 THEN F0
                 ELSE LET t == FDiv(FSub(x[i], c.m[i]), c.s[i]) IN FAdd(Quad(c, x, i - 1), FMul(t, t))
LogLik(c, x) == IF c.hashole /\ FLt(x[1], c.hole) THEN FNegInf
                ELSE FSub(c.off, FMul(Half, Quad(c, x, Len(x))))
=============================================================================
