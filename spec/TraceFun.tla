------------------------------ MODULE TraceFun ------------------------------
(* Judges recorded calls of the sample-level helpers (C04, C08, C09).       *)
EXTENDS Weights, Trim, Resample, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Exact(e) == \* replayed model behaviour: integer weights, offset num/den
  e.num < 0 \/ [k \in 1..e.size |-> e.idx[k]] \in {Comb(e.wi, e.size, e.num, e.den), Comb(e.wi, e.size, e.den - e.num, e.den)}

SystAvgBad(e) == \* mean counts over m calls; exact grid of offsets or independent draws
  LET n == Len(e.w)
      W == VSum(e.w)
      dev(i) == FAbs(FSub(e.mean[i], FDiv(FMul(FInt(e.size), e.w[i]), W)))
  IN Cl("C08.unbiased", \A i \in 1..n : FLe(dev(i), e.tol))

EssBad(e) ==
  LET p == Norm(e.w) IN
  Cl("C04.ess-formula", FClose(e.ess, ESS(p), FDec("1e-9"), F0))
  \cup Cl("C04.uss-formula", FClose(e.uss, USS(p, Len(p)), FDec("1e-9"), FDec("1e-9")))
  \cup Cl("C04.ussk-formula", FClose(e.ussk, USS(p, e.k), FDec("1e-9"), FDec("1e-9")))
  \cup Cl("C04.ess-range", FLe(FDec("0.999999999"), e.ess) /\ FLe(e.ess, FMul(FInt(Len(p)), FDec("1.000000001"))))
  \cup Cl("C04.compute-ess", FClose(e.cess, FDiv(ESS(p), FInt(Len(p))), FDec("1e-9"), F0))
  \cup Cl("C04.increment-logz", FClose(e.inc, VLSE(e.logw), FDec("1e-9"), FDec("1e-9")))

MixBad(e) ==
  LET mix == LogMix(e.L, e.betas, e.logzs)
      raw == RawLogW(e.L, mix, e.b)
  IN Cl("C04.mixture-logw", VNear(e.logw, NormLogW(raw)))
     \cup Cl("C04.mixture-unnormalised", VNear(e.raw, raw))
     \cup Cl("C04.mixture-logz", Near(e.logz, LogZ(raw)))

Judge(e) ==
  CASE e.ev = "syst" -> SystBad("C08.", e.w, e.size, e.idx) \cup Cl("C08.comb-exact", Exact(e))
                        \cup Cl("C08.seeded", e.same)
    [] e.ev = "systavg" -> SystAvgBad(e)
    [] e.ev = "trim" -> TrimBad("C09.", e.w, e.ess, e.bins, e.ids, e.wk)
    [] e.ev = "ess" -> EssBad(e)
    [] e.ev = "mix" -> MixBad(e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}

Init == l = 0
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET bad == Judge(T[l + 1]) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
        /\ l' = l + 1
=============================================================================
