------------------------------ MODULE Evidence ------------------------------
(***************************************************************************)
(* Importance-sampling evidence.  e.x, e.ldj, e.logq: all draws from the    *)
(* flow mapped to parameter space, their log-Jacobian and flow log-density. *)
(* The estimate averages likelihood x prior x Jacobian / density over ALL   *)
(* draws; a draw outside the prior's support weighs zero and its likelihood *)
(* is not evaluated.                                                        *)
(***************************************************************************)
EXTENDS Target, Clause

LOCAL DrawLogW(c, e, i) ==
  IF ~InSupport(c, e.x[i]) THEN FNegInf
  ELSE FSub(FAdd(FAdd(LogLik(c, e.x[i]), LogPrior(c, e.x[i])), e.ldj[i]), e.logq[i])
IsLogW(c, e) == VForce([i \in 1..Len(e.x) |-> DrawLogW(c, e, i)])
IsLogZ(lw) == FSub(VLSE(lw), FLog(FInt(Len(lw))))

\* relative standard error of the mean weight (delta method for its logarithm)
IsRelErr(lw) ==
  LET m == VMax(lw)
      n == FInt(Len(lw))
      w == VForce(VExp(VShift(FNeg(m), lw)))
      mu == FDiv(VSum(w), n)
      d == VForce(VShift(FNeg(mu), w))
  IN FDiv(FSqrt(FDiv(VDot(d, d), n)), FMul(mu, FSqrt(n)))
IsMaxShare(lw) == FExp(FSub(VMax(lw), VLSE(lw)))

IsBad(c, e) ==
  IF ~e.is THEN Cl("C19.no-draws-when-disabled", Len(e.x) = 0)
                \cup Cl("C19.no-error-bar-without-is", ~e.haserr)
  ELSE IF Len(e.x) # e.nev THEN {"C19.draws-exactly-n"}
  ELSE LET lw == IsLogW(c, e)
           sup == Cardinality({i \in 1..Len(e.x) : InSupport(c, e.x[i])})
           re == IsRelErr(lw)
       IN Cl("C19.average-over-all-draws", FClose(e.logz, IsLogZ(lw), FDec("1e-7"), FDec("5e-4")))
          \cup Cl("C19.evaluates-supported-draws-once", e.evaluated = sup)
          \cup Cl("C19.error-bar-with-is", e.haserr)
          \cup Cl("C19.bootstrap-error", (e.haserr /\ Len(lw) >= 50 /\ 2 * Cardinality({i \in 1..Len(lw) : FIsFin(lw[i])}) >= Len(lw)) => FIsFin(e.err) /\ FLe(F0, e.err))
          \* bootstrap and delta method agree when no draw dominates
          \cup Cl("C19.bootstrap-error", (e.haserr /\ FLt(re, FDec("0.12")) /\ FLt(IsMaxShare(lw), FDec("0.03")) /\ Len(lw) >= 200) =>
                    FLe(FMul(FDec("0.78"), re), e.err) /\ FLe(e.err, FMul(FDec("1.28"), re)))
=============================================================================
