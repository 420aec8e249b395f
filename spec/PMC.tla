--------------------------------- MODULE PMC --------------------------------
(***************************************************************************)
(* Persistent sequential Monte Carlo, iteration by iteration.              *)
(*                                                                         *)
(* The state s of a run (lineage) is                                       *)
(*   L      flat log-likelihoods of all recorded particles, in order       *)
(*   betas, logzs   the ladder, one value per recorded iteration           *)
(*   digs   one digest per recorded iteration (all fields)                 *)
(*   target current sample-size target, target0 the initial one            *)
(*   evals  likelihood evaluations made so far in the lineage              *)
(*   warm   number of warm-up iterations still to come                     *)
(*   nTotal requested total of the current run() call                      *)
(*   base   flat position of the first particle of each group of copies    *)
(*   dev, draws  martingale of the resampling statistic                    *)
(*   coin   two test martingales (logs): how often an ancestor is drawn     *)
(*          again within one resampling, multinomial scheme                *)
(*                                                                         *)
(* Each step of the system is described by a judgement: the set of clauses *)
(* an observed (or, in MC_PMC, a proposed) step violates.                  *)
(***************************************************************************)
EXTENDS Weights, Trim, Target, Resample, Evidence

NewRun(c) == [L |-> <<>>, betas |-> <<>>, logzs |-> <<>>, digs |-> <<>>, target |-> c.neff, target0 |-> c.neff,
              evals |-> 0, warm |-> c.batches, nTotal |-> 0, gid |-> <<>>, faulted |-> FALSE, dev |-> F0, devp |-> F0, draws |-> 0,
              coin |-> <<F0, F0>>]

N(s) == Len(s.betas)
Last(q) == q[Len(q)]

(* ---------------------------- a stored particle -------------------------- *)
Tight == FDec("1e-10")
CoherentBad(c, e) ==
  LET n == Len(e.logl)
      rows == 1..n
  IN Cl("C01.logl-of-x", VClose(e.logl, e.lre, Tight, Tight))
     \cup Cl("C01.logp-of-x", VClose(e.logp, e.pre, Tight, Tight))
     \cup Cl("C01.logl-formula", \A i \in rows : FClose(e.logl[i], LogLik(c, e.x[i]), FDec("1e-9"), FDec("1e-9")))
     \cup Cl("C01.logp-formula", \A i \in rows : FClose(e.logp[i], LogPrior(c, e.x[i]), FDec("1e-8"), FDec("1e-8")))
     \cup Cl("C01.blob-of-x", e.blob = e.bre)
     \cup Cl("C01.latent-of-x", \A i \in rows : VClose(e.x[i], e.xre[i], FDec("1e-7"), FDec("1e-7")))
     \cup Cl("C01.jacobian-of-u", VClose(e.logdetj, e.jre, FDec("1e-7"), FDec("1e-7")))
SupportedBad(c, e) ==
  LET rows == 1..Len(e.logl) IN
  Cl("C02.stored-finite", VAllFin(e.logl) /\ VAllFin(e.logp) /\ \A i \in rows : VAllFin(e.x[i]) /\ VAllFin(e.u[i]))
  \cup Cl("C02.stored-in-support", \A i \in rows : InSupport(c, e.x[i]))

(* ------------------------------ bookkeeping ------------------------------ *)
RecordBad(c, s, e) ==
  Cl("C05.one-entry-per-iteration", Len(e.digs) = N(s) + 1 /\ \A k \in 1..Len(e.lens) : e.lens[k] = N(s) + 1)
  \cup Cl("C05.history-append-only", Len(e.digs) >= N(s) /\ SubSeq(e.digs, 1, N(s)) = s.digs)
  \cup Cl("C05.n-active-rows", e.rows = c.nact /\ Len(e.logl) = c.nact /\ Len(e.logp) = c.nact /\ Len(e.logdetj) = c.nact
                              /\ Len(e.x) = c.nact /\ Len(e.u) = c.nact /\ (e.live => Len(e.blob) \in {0, c.nact}))
  \cup Cl("C05.iteration-index", e.iter = N(s))
  \cup Cl("C05.iteration-counter", e.live => e.tattr \in {-1, N(s) + 1})
  \cup Cl("C06.calls-recorded", e.live => e.calls = e.evals)
  \cup Cl("C06.calls-running-total", e.live => e.cattr \in {-1, e.evals})
  \cup Cl("C06.calls-monotone", e.calls >= s.evals)

Push(s, e) == [s EXCEPT !.L = @ \o e.logl, !.betas = Append(@, e.beta), !.logzs = Append(@, e.logz),
                        !.digs = Append(@, e.dig), !.evals = e.calls,
                        !.target = IF e.last THEN e.tgt ELSE @,
                        !.warm = IF @ > 0 THEN @ - 1 ELSE 0,
                        !.gid = @ \o e.gid]

(* -------------------------------- warm-up -------------------------------- *)
\* pr: the recorded prior draws of this batch (rows), one for one with the entry
WarmBad(c, s, e) ==
  RecordBad(c, s, e) \cup CoherentBad(c, e) \cup SupportedBad(c, e)
  \cup Cl("C03.warmup-beta-zero", FEq(e.beta, F0))
  \cup Cl("C04.warmup-logz-zero", FEq(e.logz, F0))
  \cup Cl("C03.target-fixed-in-warmup", e.last => e.tgt = s.target)
  \cup Cl("C06.warmup-evaluates-batch", e.live => e.evals - s.evals = c.nact)
  \cup Cl("C11.prior-batch-recorded-once", e.live => \A i \in 1..Len(e.x) :
         \/ e.x[i] = e.pr[i]
         \/ ~FIsFin(LogLik(c, e.pr[i])) /\ \E k \in 1..Len(e.pr) : e.x[i] = e.pr[k] /\ FIsFin(LogLik(c, e.pr[k])))

(* ------------------------------ termination ------------------------------ *)
Ready(beta) == FLt(FSub(F1, beta), FDec("1e-4"))
SizeAt1(c, s) == Size(c.metric, WeightsAt(s.L, LogMix(s.L, s.betas, s.logzs), F1))
\* terminated / not terminated, both allowed within tolerance of the total
MayStop(c, s, b, sz) == Ready(b) /\ AtMost(FInt(s.nTotal), sz)
MayGoOn(c, s, b, sz) == ~Ready(b) \/ AtMost(sz, FInt(s.nTotal))

(* ------------------------ one annealing iteration ------------------------ *)
\* resampling, visible when every proposal is rejected (c.frozen)
ResampleBad(c, s, e, p) ==
  LET tr == TrimRef(p, FDec("0.99"), 1000)
      \* admissible cut: rounding may move the cut by neighbouring weights
      safe == FMul(tr.cut, FDec("0.999999999"))
      total == VSum(VPick(p, SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : FLe(safe, p[i]))))
      q == [i \in 1..Len(p) |-> IF FLe(safe, p[i]) THEN FDiv(p[i], total) ELSE F0]
      na == FInt(c.nact)
      eps == FMul(FDec("1e-7"), na)
      groups == {s.gid[i] : i \in 1..Len(p)}
      mem == [g \in groups |-> {i \in 1..Len(p) : s.gid[i] = g}]
      cnt == ICounts(e.gid, Len(p))
      RECURSIVE SumF(_, _)
      SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(S \ {x}, f)
      fl == [i \in 1..Len(p) |-> LET v == FFloor(FSub(FMul(na, q[i]), eps)) IN IF v < 0 THEN 0 ELSE v]
      ce == [i \in 1..Len(p) |-> IF FEq(q[i], F0) THEN 0 ELSE FCeil(FAdd(FMul(na, q[i]), eps))]
  IN Cl("C08.ancestors-from-history", \A k \in 1..Len(e.gid) : e.gid[k] \in groups)
     \cup Cl("C08.trimmed-never-drawn", \A k \in 1..Len(e.gid) : e.gid[k] \in groups =>
              \E i \in mem[e.gid[k]] : FLt(F0, q[i]))
     \cup Cl("C08.systematic-counts", c.resample = "syst" => \A g \in groups : cnt[g] >= SumF(mem[g], fl) /\ cnt[g] <= SumF(mem[g], ce))

\* statistic for unbiasedness: relative rank of the log-likelihood, and position in the history
RankStat(L, x) == FRat(Len(L) - VCountGe(L, x), Len(L))
DevAfter(c, s, e, p) ==
  LET tr == TrimRef(p, FDec("0.99"), 1000)
      ranks == [i \in 1..Len(p) |-> RankStat(s.L, s.L[i])]
      posn == [i \in 1..Len(p) |-> FRat(s.gid[i], Len(p))]
      ex == VDot(tr.wk, VPick(ranks, tr.ids))
      ep == VDot(tr.wk, VPick(posn, tr.ids))
      n == FInt(Len(e.gid))
      got == VSum([k \in 1..Len(e.gid) |-> RankStat(s.L, e.logl[k])])
      gotp == VSum([k \in 1..Len(e.gid) |-> FRat(e.gid[k], Len(p))])
  IN [dev |-> FAdd(s.dev, FSub(got, FMul(n, ex))), devp |-> FAdd(s.devp, FSub(gotp, FMul(n, ep))), draws |-> s.draws + Len(e.gid)]
\* multinomial draws are independent, with replacement: given the draws so far,
\* the next one falls on an ancestor already drawn with probability pr.  Two
\* gamblers bet on that, one on fewer and one on more repetitions.
CoinAfter(s, e, p) ==
  LET tr == TrimRef(p, FDec("0.99"), 1000)
      w == [k \in 1..Len(tr.ids) |-> tr.wk[k]]
      grp == [k \in 1..Len(tr.ids) |-> s.gid[tr.ids[k]]]
      mass == [g \in {grp[k] : k \in 1..Len(grp)} |-> VSum(VPick(w, SelectSeq([k \in 1..Len(grp) |-> k], LAMBDA k : grp[k] = g)))]
      RECURSIVE Bet(_, _, _, _)
      Bet(k, seen, pr, m) ==
        IF k > Len(e.perm) THEN m
        ELSE LET g == e.gid[e.perm[k]]
                 again == g \in seen
                 x == FSub(IF again THEN F1 ELSE F0, FMin(pr, F1))
             IN Bet(k + 1, seen \cup {g}, IF again \/ g \notin DOMAIN mass THEN pr ELSE FAdd(pr, mass[g]),
                    <<FAdd(m[1], FLog1p(FMul(FDec("-0.9"), x))), FAdd(m[2], FLog1p(FMul(FDec("0.5"), x)))>>)
  IN Bet(1, {}, F0, s.coin)
\* Ville: either gambler reaches 1e9 with probability at most 1e-9
CoinBad(s) == Cl("C08.drawn-with-replacement", FLe(s.coin[1], FDec("20.7")) /\ FLe(s.coin[2], FDec("20.7")))
\* Hoeffding-Azuma bound for a false alarm probability of 2e-11 per run
DevBad(d) == LET lim == FSqrt(FMul(FInt(d.draws), FDec("12.3"))) IN
             Cl("C08.unbiased-in-run", FLe(FAbs(d.dev), lim) /\ FLe(FAbs(d.devp), lim))

IterBad(c, s, e) ==
  LET bP == Last(s.betas)
      mix == LogMix(s.L, s.betas, s.logzs)
      rawB == RawLogW(s.L, mix, e.beta)
      pB == WeightsAt(s.L, mix, e.beta)
      sP == Size(c.metric, WeightsAt(s.L, mix, bP))
      s1 == Size(c.metric, WeightsAt(s.L, mix, F1))
      sB == Size(c.metric, pB)
      tf == FInt(s.target)
  IN RecordBad(c, s, e) \cup CoherentBad(c, e) \cup SupportedBad(c, e)
     \cup Cl("C03.beta-in-range", FIsFin(e.beta) /\ FLe(F0, e.beta) /\ FLe(e.beta, F1))
     \cup Cl("C03.beta-monotone", FLe(bP, e.beta))
     \cup Cl("C03.sample-size-rule", c.tracked => RuleHolds(bP, e.beta, sP, s1, sB, tf))
     \cup Cl("C03.recorded-sample-size", Near(e.ess, sB))
     \cup Cl("C03.target-rule", e.last /\ c.tracked => e.tgt \in DynTargets(c.dynamic, DynRatio(s.target0, c.nact), c.nact, s.target, pB))
     \cup Cl("C04.iteration-logz", IF c.tracked /\ FEq(e.beta, bP) /\ AtMost(sP, tf) /\ ~Near(sP, tf) THEN FEq(e.logz, Last(s.logzs))
                                   ELSE Near(e.logz, LogZ(rawB)) \/ (FEq(e.beta, bP) /\ FEq(e.logz, Last(s.logzs))))
     \cup Cl("C05.no-extra-iteration", s.nTotal > 0 => MayGoOn(c, s, bP, s1))
     \cup Cl("C05.warmup-complete", s.warm = 0)
     \cup Cl("C06.steps-are-rounds", e.live => /\ e.evals - s.evals <= e.steps * c.nact
                                              /\ (c.full => e.evals - s.evals = e.steps * c.nact))
     \cup Cl("C07.steps-in-range", e.steps >= 1 /\ e.steps <= c.maxsteps)
     \cup Cl("C07.accept-in-range", FLe(F0, e.accept) /\ FLe(e.accept, F1))
     \cup (IF c.frozen THEN ResampleBad(c, s, e, pB) ELSE {})

IterNext(c, s, e) ==
  LET s2 == Push(s, e) IN
  IF ~c.frozen THEN s2
  ELSE LET p == WeightsAt(s.L, LogMix(s.L, s.betas, s.logzs), e.beta)
           d == DevAfter(c, s, e, p)
       IN [s2 EXCEPT !.dev = d.dev, !.devp = d.devp, !.draws = d.draws, !.coin = IF c.resample = "mult" THEN CoinAfter(s, e, p) ELSE @]

(* the geometry of an iteration's proposals: weighted mean and covariance of  *)
(* the trimmed population at the new temperature (coordinates e.Z)            *)
GeomBad(c, s, e) ==
  IF ~e.ok THEN {"C21.normal-shape"} ELSE
  LET p == WeightsAt(s.L, LogMix(s.L, s.betas, s.logzs), e.beta)
      tr == TrimRef(p, FDec("0.99"), 1000)
      X == [k \in 1..Len(tr.ids) |-> e.Z[tr.ids[k]]]
      m == MWMean(X, tr.wk)
      S == MScatter(X, tr.wk, m)
      f == FSub(F1, VDot(tr.wk, tr.wk))
      d == Len(m)
      sd == [i \in 1..d |-> FSqrt(S[i][i])]
      \* rounding may move the trimming cut by a neighbouring particle
      t == FAdd(FDec("1e-5"), FMul(FInt(30), VMin(tr.wk)))
  IN Cl("C21.population-mean", \A i \in 1..d : FLe(FAbs(FSub(e.nm[i], m[i])), FMul(t, FAdd(sd[i], FMul(FDec("1e-4"), FAbs(m[i]))))))
     \cup Cl("C21.population-cov", \A i, j \in 1..d : FLe(FAbs(FSub(e.nc[i][j], FDiv(S[i][j], f))), FMul(FMul(FInt(3), t), FMul(sd[i], sd[j]))))

(* ------------------------ an interrupted iteration ----------------------- *)
(* User code raised: the exception is the caller's, and the state is the one  *)
(* after the last completed iteration.                                        *)
FaultBad(c, s, e) ==
  Cl("C23.exception-reaches-caller", e.same)
  \cup Cl("C23.history-kept", e.digs = s.digs /\ \A k \in 1..Len(e.lens) : e.lens[k] = N(s))
  \cup Cl("C23.counters-kept", e.tattr \in {-1, N(s)} /\ e.cattr \in {-1, s.evals} /\ e.tgt \in {-1, s.target})

(* ----------------------------- end of a run ------------------------------ *)
DoneBad(c, s, e) ==
  LET mix == LogMix(s.L, s.betas, s.logzs)
      raw == RawLogW(s.L, mix, F1)
      sz == Size(c.metric, WeightsAt(s.L, mix, F1))
  IN Cl("C05.stops-only-when-reached", MayStop(c, s, Last(s.betas), sz))
     \cup Cl("C05.results-current", e.digs = s.digs /\ \A k \in 1..Len(e.lens) : e.lens[k] = N(s))
     \cup Cl("C04.results-logw", VNear(e.logw, NormLogW(raw)))
     \cup Cl("C04.logw-normalised", FClose(VLSE(e.logw), F0, F0, FDec("1e-9")))
     \cup Cl("C04.final-logz", ~e.is => Near(e.logz, LogZ(raw)))
     \cup Cl("C19.no-error-bar-without-is", ~e.is => ~e.haserr)
     \cup Cl("C19.error-bar-with-is", e.is => e.haserr /\ ~FLt(e.err, F0))
     \cup Cl("C06.total-after-run", e.cattr \in {-1, e.evals})
     \cup Cl("C06.no-hidden-evaluations", e.evals - s.evals <= IF e.is THEN e.nev ELSE 0)
     \cup (IF c.frozen THEN DevBad(s) \cup CoinBad(s) ELSE {})

(* evaluations made since the previous event (points)                       *)
EvalsBad(c, e) == Cl("C02.evaluated-in-support", \A i \in 1..Len(e.pts) : InSupport(c, e.pts[i]))

(* ------------------------------- posterior ------------------------------- *)
PostBad(c, s, e) ==
  LET mix == LogMix(s.L, s.betas, s.logzs)
      p == WeightsAt(s.L, mix, F1)
      n == Len(p)
      all == [i \in 1..n |-> i]
      known == \A k \in 1..Len(e.pos) : e.pos[k] \in 1..n
      aligned == known /\ \A k \in 1..Len(e.lens) : e.lens[k] = Len(e.pos)
  IN IF ~aligned THEN {"C12.rows-aligned"}
     ELSE IF ~e.resample
     THEN Cl("C12.order", \A k \in 1..Len(e.pos) - 1 : e.pos[k] < e.pos[k + 1])
          \cup (IF e.trim
                THEN TrimBad("C12.", p, e.ess, e.bins, e.pos, IF e.logform THEN VPick(p, e.pos) ELSE e.w)
                       \ (IF e.logform THEN {"C12.trim-renormalised", "C12.trim-sums-to-one"} ELSE {})
                ELSE Cl("C12.every-particle-once", e.pos = all)
                     \cup Cl("C12.weights", VClose(IF e.logform THEN VExp(e.w) ELSE e.w, p, FDec("1e-8"), FDec("1e-12"))))
          \cup Cl("C12.logweights-proportional", e.logform => /\ \A k \in 1..Len(e.w) : ~FIsNaN(e.w[k])
                /\ LET heavy(v) == VMax(v)
                       h == CHOOSE i \in 1..Len(e.w) : e.w[i] = VMax(e.w)
                       k0 == e.w[h]  p0 == p[e.pos[h]] IN
                   \A k \in 1..Len(e.w) :
                      IF FLt(p[e.pos[k]], FDec("1e-300"))          \* the exponential has underflowed
                      THEN FLt(FSub(e.w[k], heavy(e.w)), FInt(-680))
                      ELSE FClose(FSub(e.w[k], k0), FSub(FLog(p[e.pos[k]]), FLog(p0)), FDec("1e-7"), FDec("1e-7")))
     ELSE Cl("C12.resampled-size", e.nrows = e.kept)
          \cup Cl("C12.resampled-positive-weight", \A k \in 1..Len(e.pos) : FLt(F0, p[e.pos[k]]))

(* resampled posterior, counts summed over e.reps calls: groups of copies   *)
PostCountBad(c, s, e) ==
  LET mix == LogMix(s.L, s.betas, s.logzs)
      p == WeightsAt(s.L, mix, F1)
      n == Len(p)
      tr == IF e.trim THEN TrimRef(p, e.ess, e.bins) ELSE [ids |-> [i \in 1..n |-> i], wk |-> p, cut |-> F0]
      safe == FMul(tr.cut, FDec("0.999999999"))
      m == Len(tr.ids)
      h == [i \in 1..n |-> RankStat(s.L, s.L[i])]
      ex == VDot(tr.wk, VPick(h, tr.ids))
      got == VDot([i \in 1..n |-> FInt(e.counts[i])], h)
      gotAll == VSum([i \in 1..n |-> FInt(e.counts[i])])
      lim == FSqrt(FMul(gotAll, FDec("12.3")))
  IN Cl("C12.resample-only-kept", \A i \in 1..n : e.counts[i] > 0 => FLe(safe, p[i]) /\ FLt(F0, p[i]))
     \cup Cl("C12.resample-unbiased", FLe(FAbs(FSub(got, FMul(gotAll, ex))), lim))
     \cup Cl("C12.resample-systematic", c.resample = "syst" =>
             \A k \in 1..m : LET want == FMul(FInt(e.reps * m), tr.wk[k])
                                 g == {j \in 1..m : s.gid[tr.ids[j]] = s.gid[tr.ids[k]]} IN
               Cardinality(g) = 1 =>
                 /\ e.counts[tr.ids[k]] >= e.reps * FFloor(FSub(FMul(FInt(m), tr.wk[k]), FDec("1e-6")))
                 /\ e.counts[tr.ids[k]] <= e.reps * FCeil(FAdd(FMul(FInt(m), tr.wk[k]), FDec("1e-6"))))
=============================================================================
