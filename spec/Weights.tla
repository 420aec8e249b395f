------------------------------ MODULE Weights -------------------------------
(***************************************************************************)
(* Importance weights of a persistent particle history.                    *)
(*                                                                         *)
(* The history is the flat vector L of the log-likelihoods of all recorded *)
(* particles (in order) together with the ladder: betas[i], logzs[i] for   *)
(* each recorded iteration i.                                              *)
(***************************************************************************)
EXTENDS Floats

RTOL == FDec("1e-9")
ATOL == FDec("1e-9")
Near(x, y) == FClose(x, y, RTOL, ATOL)
VNear(x, y) == VClose(x, y, RTOL, ATOL)

\* log of the average over iterations of L^beta_i / Z_i, particle by particle
RECURSIVE MixSum(_, _, _, _)
MixSum(L, betas, logzs, i) ==
  LET here == VShift(FNeg(logzs[i]), VScale(betas[i], L))
  IN IF i = 1 THEN here ELSE VLogAddExp(MixSum(L, betas, logzs, i - 1), here)
LogMix(L, betas, logzs) ==
  VShift(FNeg(FLog(FInt(Len(betas)))), MixSum(L, betas, logzs, Len(betas)))

\* unnormalised log-weights at inverse temperature b, given the mixture term
RawLogW(L, mix, b) == VSub(VScale(b, L), mix)
NormLogW(raw) == VShift(FNeg(VLSE(raw)), raw)
LogZ(raw) == FSub(VLSE(raw), FLog(FInt(Len(raw))))

\* normalised weights
Norm(w) == VScale(FDiv(F1, VSum(w)), w)
WeightsAt(L, mix, b) == Norm(VExp(NormLogW(RawLogW(L, mix, b))))

\* sample-size helpers, of normalised weights
ESS(p) == FDiv(F1, VDot(p, p))
USS(p, k) == VSum(VUnq(p, k))
Size(metric, p) == IF metric = "ess" THEN ESS(p) ELSE USS(p, Len(p))

(* The sample-size rule.  sPrev, s1, s: sample sizes at the previous        *)
(* temperature, at 1 and at the chosen temperature b.  Ties within tol of   *)
(* the target may be decided either way.                                   *)
Tol == FDec("1e-7")
AtMost(x, y) == FLe(x, FAdd(y, FMul(Tol, FAbs(y))))
Within1pc(s, target) == AtMost(FAbs(FSub(s, target)), FMul(FDec("0.01"), target))
RuleHolds(bPrev, b, sPrev, s1, s, target) ==
  \/ FEq(b, bPrev) /\ AtMost(sPrev, target)
  \/ FEq(b, F1) /\ AtMost(target, sPrev) /\ AtMost(target, s1)
  \/ /\ AtMost(target, sPrev) /\ AtMost(s1, target)
     /\ Within1pc(s, target)
     /\ FLe(bPrev, b) /\ FLe(b, F1)

(* The documented dynamic allocation: keep the ratio of expected unique     *)
(* active particles.  Returns the set of admissible new targets.            *)
Trunc(x) == {FTrunc(x), FTrunc(FSub(x, FMul(Tol, FAbs(x)))), FTrunc(FAdd(x, FMul(Tol, FAbs(x))))}
DynRatio(nEff0, nAct) == FDiv(USS(VConst(FRat(1, nEff0), nEff0), nAct), FInt(nAct))
DynTargets(dynamic, ratio, nAct, target, p) ==
  IF ~dynamic THEN {target}
  ELSE LET nu == USS(p, nAct)
           na == FInt(nAct)
           lo == FMul(na, FMul(FDec("0.95"), ratio))
           hi == FMul(na, FMin(FMul(FDec("1.05"), ratio), F1))
           up == Trunc(FMul(FDiv(na, nu), FInt(target)))
           dn == Trunc(FMul(FDiv(nu, na), FInt(target)))
           tie(x, y) == FClose(x, y, Tol, Tol)
       IN (IF FLt(nu, lo) \/ tie(nu, lo) THEN up ELSE {})
          \cup (IF (FLt(hi, nu) /\ ~FLt(nu, lo)) \/ tie(nu, hi) THEN dn ELSE {})
          \cup (IF (FLe(lo, nu) \/ tie(nu, lo)) /\ (FLe(nu, hi) \/ tie(nu, hi)) THEN {target} ELSE {})
=============================================================================
