----------------------------- MODULE TraceKernel ----------------------------
(* Judges recorded calls of the four MCMC kernels.  Walkers arrive with x,  *)
(* u, y, ld, lf; log-likelihood and log-prior of start points and proposals *)
(* are computed here from the problem's formulas.                           *)
EXTENDS Kernel, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg

\* analytic test flow theta = a asinh(v) + b, coordinate by coordinate
FlowLogJac(c, y) == VSum([i \in 1..Len(y) |->
   LET t == FDiv(FSub(y[i], c.fb[i]), c.fa[i])
       ch == FMul(HalfF, FAdd(FExp(t), FExp(FNeg(t))))      \* v = sinh t, dv/dtheta = cosh(t)/a
   IN FSub(FLog(ch), FLog(c.fa[i]))])
Fill(c, w) == [y |-> w.y, x |-> w.x, u |-> w.u, ld |-> w.ld, lf |-> IF c.flow = "asinh" THEN FlowLogJac(c, w.y) ELSE w.lf,
               logl |-> IF InSupport(c, w.x) THEN LogLik(c, w.x) ELSE FNegInf,
               logp |-> LogPrior(c, w.x), blob |-> w.blob]
Got(w) == [x |-> w.x, u |-> w.u, ld |-> w.ld, logl |-> w.logl, logp |-> w.logp, blob |-> w.blob]
FillAll(c, ws) == [k \in 1..Len(ws) |-> Fill(c, ws[k])]
Geo(e, start) == [kind |-> e.kind, beta |-> e.beta, d |-> e.d, nu |-> e.nu, mu |-> e.mu, inv |-> e.inv, start |-> start]
InvOk(e) == \A i \in 1..e.d : \A j \in 1..e.d :
   FClose(VDot(e.inv[i], [k \in 1..e.d |-> e.cov[k][j]]), IF i = j THEN F1 ELSE F0, FDec("1e-6"), FDec("1e-6"))

Judge(c, e) ==
  CASE e.ev = "cfg" -> {}
    [] e.ev = "step" -> IF ~InvOk(e) THEN {"ANY.bad-recording"} ELSE
         StepBad(Geo(e, <<>>), [old |-> FillAll(c, e.old), prop |-> FillAll(c, e.prop), new |-> [k \in 1..Len(e.new) |-> Got(e.new[k])],
                                accept |-> e.accept, steps |-> e.steps, calls |-> e.calls, evals |-> e.evals])
    [] e.ev = "chain" -> IF ~InvOk(e) THEN {"ANY.bad-recording"} ELSE
         ChainBad(Geo(e, Fill(c, e.old)), [steps |-> [k \in 1..Len(e.steps) |-> [prop |-> Fill(c, e.steps[k].prop), acc |-> e.steps[k].acc]],
                                new |-> Got(e.new), nmax |-> e.nmax, nsteps |-> e.nsteps, accept |-> e.accept, calls |-> e.calls, evals |-> e.evals])
    [] e.ev = "law" -> LawBad(Geo(e, <<>>), e)
    [] e.ev = "inv" -> InvBad(c, e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}

Init == l = 0 /\ cfg = [ev |-> "none"]
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET e == T[l + 1] IN
           /\ LET bad == Judge(cfg, e) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
           /\ cfg' = IF e.ev = "cfg" THEN e ELSE cfg
        /\ l' = l + 1
=============================================================================
