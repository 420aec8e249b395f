------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* How a user's configuration is resolved.  A size that is not given is     *)
(* None (= -1, since real sizes are positive).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Clause

None == -1
LOCAL Max(a, b) == IF a > b THEN a ELSE b

NEff(c) == IF c.ness # None THEN c.ness ELSE c.neff     \* n_ess is the deprecated name of n_effective
Active(c) == IF c.nact # None THEN c.nact ELSE NEff(c) \div 2
Effective(c) == IF NEff(c) # None THEN NEff(c) ELSE 2 * c.nact
Batches(c) == IF c.nprior = None THEN 2 * Max(Effective(c) \div Active(c), 1)
              ELSE Max(c.nprior \div Active(c), 1)
TrainEvery(c) == IF c.tf # None THEN c.tf ELSE Max(Effective(c) \div (2 * Active(c)), 1)
\* the iteration with index k (0-based, warm-up included) retrains the flow
TrainDue(c, k, firstAnneal, betaIsOne) == (k + 1) % TrainEvery(c) = 0 \/ betaIsOne \/ firstAnneal

Transforms == {"probit", "logit"}
Metrics == {"ess", "uss"}
Samplers == {"tpcn", "rwm"}
Schemes == {"mult", "syst"}
Flows == {"nsf3", "nsf6", "nsf12", "maf3", "maf6", "maf12"}
SizesGiven(c) == c.nact # None \/ NEff(c) # None
Accepted(c) == /\ SizesGiven(c)
               /\ c.transform \in Transforms /\ c.metric \in Metrics /\ c.sample \in Samplers /\ c.resample \in Schemes
               /\ c.flow \in Flows \cup {"<user>"}
               /\ ~(c.vectorize /\ c.blobs)

(* ------------------- judging what the constructor and a run did ---------- *)
BuiltBad(c, e) ==
  Cl("C20.likelihood-not-called-by-constructor", e.evals = 0)
  \cup (IF Accepted(c)
        THEN Cl("C20.accepted", ~e.raised)
        ELSE Cl("C20.refused", e.raised /\ e.valueerror))
\* -1: the sampler has no attribute of that name
AttrBad(c, e) ==
  Cl("C20.active-size", e.nact \in {-1, Active(c)})
  \cup Cl("C20.effective-size", e.neff \in {-1, Effective(c)})
  \cup Cl("C20.train-frequency", e.tf \in {-1, TrainEvery(c)})
RanBad(c, e) ==
  Cl("C20.active-size", \A k \in 1..Len(e.rows) : e.rows[k] = Active(c))
  \cup Cl("C20.effective-size", \A k \in 1..Len(e.ess) : k <= Batches(c) => e.ess[k] = Effective(c))
  \cup Cl("C20.warmup-batches", e.batches = Batches(c) /\ Len(e.rows) >= Batches(c))
  \cup Cl("C20.prior-draws", e.drawn >= Batches(c) * Active(c))
\* e.fit[k]: the k-th annealing iteration trained the flow; e.one[k]: its temperature is 1
TrainBad(c, e) ==
  Cl("C20.train-schedule", \A k \in 1..Len(e.fit) :
        e.fit[k] = TrainDue(c, Batches(c) + k - 1, k = 1, e.one[k]))
\* training options: the named ones are the user's, the others the defaults of the same configuration
OptionsBad(e) ==
  Cl("C20.train-options", \A k \in 1..Len(e.opts) :
        LET o == e.opts[k] IN IF o.named THEN o.got = o.user ELSE o.got = o.default)
=============================================================================
