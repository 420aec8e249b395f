------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* One Metropolis-Hastings step of a walker.                               *)
(*                                                                         *)
(* A walker state w is [y, x, u, ld, lf, logl, logp]: y is the point in    *)
(* the space the proposal lives in (theta for the preconditioned kernels,  *)
(* u otherwise), ld the log-Jacobian of x(u), lf the log-Jacobian of       *)
(* u(theta) (0 without a flow).  g is the call: beta, kind, geometry.      *)
(***************************************************************************)
EXTENDS Prior

HalfF == FDec("0.5")
Quad2(inv, v) == VDot(v, MVec(inv, v))
\* log density of the Student-t geometry, up to a constant
LogT(g, mu, y) == LET q == Quad2(g.inv, VSub(y, mu)) IN
                  FNeg(FMul(FMul(HalfF, FAdd(FInt(g.d), g.nu)), FLog1p(FDiv(q, g.nu))))
IsCN(g) == g.kind \in {"tpcn", "ptpcn"}
HasFlow(g) == g.kind \in {"ptpcn", "prwm"}
\* log target density in the proposal space
LogTarget(g, w) == FAdd(FAdd(FMul(g.beta, w.logl), w.logp), FAdd(w.ld, w.lf))
Usable(w) == FIsFin(w.logl) /\ FIsFin(w.logp) /\ FIsFin(w.ld) /\ VAllFin(w.x)
LogRatio(g, mu, a, b) ==
  LET r == FSub(LogTarget(g, b), LogTarget(g, a))
      c == IF IsCN(g) THEN FSub(LogT(g, mu, a.y), LogT(g, mu, b.y)) ELSE F0
  IN FAdd(r, c)
Alpha(g, mu, a, b) ==
  IF ~Usable(b) THEN F0
  ELSE LET lr == LogRatio(g, mu, a, b)
       IN IF FIsNaN(lr) THEN F0 ELSE IF FLe(F0, lr) THEN F1 ELSE FExp(lr)
\* tolerance on alpha: flows work in single precision
ATol(g) == IF HasFlow(g) THEN FDec("2e-3") ELSE FDec("1e-7")

(* -------------------- one step of a whole population --------------------- *)
Fine == FDec("1e-11")
Same(p, q) == /\ p.x = q.x /\ p.u = q.u /\ p.blob = q.blob
              /\ FClose(p.ld, q.ld, Fine, Fine) /\ FClose(p.logl, q.logl, Fine, Fine) /\ FClose(p.logp, q.logp, Fine, Fine)
StepBad(g, e) ==
  LET n == Len(e.old)
      al == VForce([k \in 1..n |-> Alpha(g, g.mu, e.old[k], e.prop[k])])
      mean == FDiv(VSum(al), FInt(n))
      moved == VForce([k \in 1..n |-> Same(e.new[k], e.prop[k])])
      stayed == VForce([k \in 1..n |-> Same(e.new[k], e.old[k])])
      t == ATol(g)
      free == SelectSeq([k \in 1..n |-> k], LAMBDA k : ~(moved[k] /\ stayed[k]))
      dev(f(_)) == VSum([i \in 1..Len(free) |-> LET k == free[i] IN
                     FMul(f(al[k]), FSub(IF moved[k] THEN F1 ELSE F0, al[k]))])
      \* Hoeffding, false alarm probability 5e-11 per statistic, plus the tolerance on alpha
      lim == FAdd(FSqrt(FMul(FInt(Len(free)), FDec("12.2"))), FMul(FInt(n), t))
      flat(a) == F1
      tilt(a) == FSub(FMul(FInt(2), a), F1)
  IN Cl("C07.accept-mean", FClose(e.accept, mean, F0, t))
     \cup Cl("C07.move-as-a-whole", \A k \in 1..n : moved[k] \/ stayed[k])
     \cup Cl("C07.certain-acceptance", \A k \in 1..n : Usable(e.prop[k]) /\ FLt(FMul(FInt(4), t), LogRatio(g, g.mu, e.old[k], e.prop[k])) => moved[k])
     \cup Cl("C07.certain-rejection", \A k \in 1..n : FLt(al[k], FDec("1e-13")) => stayed[k])
     \cup Cl("C07.acceptance-frequency", FLe(FAbs(dev(flat)), lim) /\ FLe(FAbs(dev(tilt)), lim))
     \cup Cl("C06.kernel-steps", e.steps = 1)
     \cup Cl("C06.kernel-calls", e.calls = e.evals)

(* ------------------- a chain of steps of one walker ---------------------- *)
\* possible states after each step; the statistic acc reported for the step
\* tells which of them remain
MuNext(g, mu, y, i) == IF g.kind = "ptpcn" THEN VAdd(mu, VScale(FRat(1, i + 1), VSub(y, mu))) ELSE mu
RECURSIVE Chain(_, _, _)
Chain(g, steps, i) ==
  IF i = 0 THEN {[w |-> g.start, mu |-> g.mu]}
  ELSE LET prev == Chain(g, steps, i - 1)
           st == steps[i]
       IN UNION { LET al == Alpha(g, p.mu, p.w, st.prop) IN
                  IF ~FClose(st.acc, al, F0, ATol(g)) THEN {}
                  ELSE {[w |-> q, mu |-> MuNext(g, p.mu, q.y, i)] :
                          q \in (IF FLt(F0, al) THEN {st.prop} ELSE {}) \cup (IF FLt(al, F1) THEN {p.w} ELSE {})}
                : p \in prev }
ChainBad(g, e) ==
  LET n == Len(e.steps)
      ends == Chain(g, e.steps, n)
      last == IF n = 0 THEN {} ELSE Chain(g, e.steps, n - 1)
  IN Cl("C07.chain-acceptance", ends # {})
     \cup Cl("C07.chain-end", ends # {} => \E p \in ends : Same(e.new, p.w))
     \cup Cl("C07.steps-in-range", n >= 1 /\ n <= IF e.nmax < 1 THEN 1 ELSE e.nmax)
     \cup Cl("C06.kernel-steps", e.nsteps = n)
     \cup Cl("C06.kernel-calls", e.calls = e.evals)
     \cup Cl("C07.accept-mean", FEq(e.accept, e.steps[n].acc))

(* --------------------------- the proposal law ---------------------------- *)
(* Many walkers at one point y0: the standardised displacements follow a    *)
(* standard normal (random walk) or a multivariate t with d + nu degrees of *)
(* freedom (Crank-Nicolson: scale mixture), so that the move is reversible  *)
(* with respect to the Student-t geometry.                                  *)
LawBad(g, e) ==
  LET n == Len(e.ys)
      d == g.d
      off == VSub(e.y0, g.mu)
      cn == FSqrt(FSub(F1, FMul(e.sigma, e.sigma)))
      centre == IF IsCN(g) THEN VAdd(g.mu, VScale(cn, off)) ELSE e.y0
      df == FAdd(FInt(d), g.nu)
      sc == IF IsCN(g) THEN FSqrt(FDiv(df, FAdd(g.nu, Quad2(g.inv, off)))) ELSE F1
      z == VForce([k \in 1..n |-> VScale(FDiv(sc, e.sigma), MVec(e.linv, VSub(e.ys[k], centre)))])
      col(i) == [k \in 1..n |-> IF IsCN(g) THEN TCdf(z[k][i], df) ELSE NormCdf(z[k][i])]
      rad == [k \in 1..n |-> LET r == VDot(z[k], z[k]) IN
                IF IsCN(g) THEN FBetaInc(FMul(HalfF, FInt(d)), FMul(HalfF, df), FDiv(r, FAdd(r, df)))
                ELSE IF d = 2 THEN FSub(F1, FExp(FNeg(FMul(HalfF, r)))) ELSE FSub(FMul(FInt(2), NormCdf(FSqrt(r))), F1)]
      sgn(i, j) == VSum([k \in 1..n |-> IF FLt(F0, FMul(z[k][i], z[k][j])) THEN F1 ELSE FInt(-1)])
      lim == FSqrt(FMul(FInt(n), FDec("47.6")))
  IN Cl("C07.proposal-law", \A i \in 1..d : FLe(VKS(col(i)), KSLimit(n)))
     \cup Cl("C07.proposal-law-radial", d <= 2 => FLe(VKS(rad), KSLimit(n)))
     \cup Cl("C07.proposal-law-correlation", \A i, j \in 1..d : i < j => FLe(FAbs(sgn(i, j)), lim))

(* ------------------------------ invariance ------------------------------- *)
(* Walkers drawn from the tempered posterior are distributed as the tempered *)
(* posterior after any number of steps of the kernel: the prior itself for   *)
(* beta = 0, a product of conjugate normals for normal priors.               *)
TargetCdf(c, beta, i, x) ==
  IF beta = F0 THEN CompCdf(c.prior[i], x)
  ELSE LET k == c.prior[i]
           pb == FDiv(F1, FMul(k.b, k.b))
           ps == FDiv(beta, FMul(c.s[i], c.s[i]))
           p == FAdd(pb, ps)
           mean == FDiv(FAdd(FMul(k.a, pb), FMul(c.m[i], ps)), p)
       IN NormCdf(FMul(FSub(x, mean), FSqrt(p)))
InvBad(c, e) ==
  LET n == Len(e.x)
      pit(xs, i) == VForce([k \in 1..n |-> TargetCdf(c, e.beta, i, xs[k][i])])
      cen(v) == VShift(FDec("-0.5"), v)
      cross(i, j) == LET a == cen(pit(e.x, i))  b == cen(pit(e.x, j)) IN FMul(FInt(4), VDot(a, b))     \* a sum of n terms in [-1, 1]
  IN IF \E i \in 1..e.d : ~FLe(VKS(pit(e.x0, i)), KSLimit(n)) THEN {"ANY.bad-recording"}
     ELSE Cl("C07.invariance", \A i \in 1..e.d : FLe(VKS(pit(e.x, i)), KSLimit(n)))
          \cup Cl("C07.invariance-joint", \A i, j \in 1..e.d : i < j => FLe(FAbs(cross(i, j)), FSqrt(FMul(FInt(n), FDec("47.6")))))
=============================================================================
