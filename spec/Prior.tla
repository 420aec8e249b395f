------------------------------- MODULE Prior --------------------------------
(* A prior is the product of its components, column by column.              *)
EXTENDS Target, Clause

Bd(k) == <<Low(k), High(k)>>
CompCdf(k, x) ==
  LET z == Z(k, x) IN
  CASE FLt(x, Low(k)) -> F0
    [] FLt(High(k), x) -> F1
    [] k.k = "norm" -> NormCdf(z)
    [] k.k = "unif" -> z
    [] k.k = "expon" -> FSub(F1, FExp(FNeg(z)))
    [] k.k = "rexp" -> FExp(z)
    [] k.k = "beta22" -> FMul(FMul(z, z), FSub(FInt(3), FMul(FInt(2), z)))
    [] k.k = "laplace" -> IF FLt(z, F0) THEN FMul(Half, FExp(z)) ELSE FSub(F1, FMul(Half, FExp(FNeg(z))))
    [] k.k = "logistic" -> FDiv(F1, FAdd(F1, FExp(FNeg(z))))
    [] k.k = "gamma2" -> FSub(F1, FMul(FAdd(F1, z), FExp(FNeg(z))))
    [] k.k = "halfnorm" -> FErf(FDiv(z, FSqrt(FInt(2))))
    [] k.k = "cauchy" -> FAdd(Half, FDiv(FAtan(z), FDec("3.141592653589793")))

MetaBad(e) ==
  Cl("C16.dim", e.dim = Len(e.comps))
  \cup Cl("C16.bounds", Len(e.bounds) = Len(e.comps) /\ \A i \in 1..Len(e.comps) : Len(e.bounds[i]) = 2
          /\ \A s \in {1, 2} : FClose(e.bounds[i][s], Bd(e.comps[i])[s], FDec("1e-14"), F0))
RowLogPdf(comps, x) == VSum([i \in 1..Len(comps) |-> CompLogPdf(comps[i], x[i])])
PdfBad(e) ==
  Cl("C16.logpdf", Len(e.lp) = Len(e.x) /\ \A r \in 1..Len(e.x) :
       LET v == RowLogPdf(e.comps, e.x[r]) IN
       IF \E i \in 1..Len(e.comps) : ~InComp(e.comps[i], e.x[r][i]) THEN e.lp[r] = FNegInf
       ELSE FClose(e.lp[r], v, FDec("1e-9"), FDec("1e-9")))
  \cup Cl("C16.pure", e.pure)
\* one row per draw, column i from distribution i, columns independent
DrawBad(e) ==
  LET n == Len(e.x)  d == Len(e.comps)
      pit(i) == [r \in 1..n |-> CompCdf(e.comps[i], e.x[r][i])]
      P == [i \in 1..d |-> VForce(pit(i))]
      cen(i) == VShift(FNeg(FDiv(VSum(P[i]), FInt(n))), P[i])
      corr(i, j) == FDiv(VDot(cen(i), cen(j)), FSqrt(FMul(VDot(cen(i), cen(i)), VDot(cen(j), cen(j)))))
      lag(i) == FDiv(VDot(SubSeq(cen(i), 1, n - 1), SubSeq(cen(i), 2, n)), VDot(cen(i), cen(i)))
  IN IF e.rows # e.size \/ e.cols # d THEN {"C16.draw-shape"} ELSE
     Cl("C16.draw-support", \A r \in 1..n : \A i \in 1..d : InComp(e.comps[i], e.x[r][i]))
     \cup (IF n < 500 THEN {} ELSE
            Cl("C16.draw-column", \A i \in 1..d : FLe(VKS(P[i]), KSLimit(n)))
            \cup Cl("C16.draw-independent", \A i, j \in 1..d : i >= j \/ FLe(FAbs(corr(i, j)), FDiv(FDec("7.5"), FSqrt(FInt(n)))))
            \cup Cl("C16.draw-independent", \A i \in 1..d : FLe(FAbs(lag(i)), FDiv(FDec("7.5"), FSqrt(FInt(n))))))
=============================================================================
