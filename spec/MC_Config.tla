------------------------------ MODULE MC_Config ------------------------------
(* Enumerates configurations; the design theorems below hold for all of     *)
(* them, and every size combination is replayed into the real constructor.  *)
EXTENDS Config, TLC
CONSTANTS Sizes, Actives, Priors, Freqs, Esses
VARIABLE c
Pick(neff, nact, nprior, tf, ness) ==
  [neff |-> neff, nact |-> nact, nprior |-> nprior, tf |-> tf, ness |-> ness, transform |-> "probit", metric |-> "ess", sample |-> "tpcn",
   resample |-> "mult", flow |-> "<user>", vectorize |-> FALSE, blobs |-> FALSE]
Init == c \in {Pick(a, b, p, t, s) : a \in Sizes \cup {None}, b \in Actives \cup {None}, p \in Priors \cup {None}, t \in Freqs \cup {None}, s \in Esses \cup {None}}
Next == UNCHANGED c
Emit == SizesGiven(c) => PrintT(<<"CFG", c.neff, c.nact, c.nprior, c.tf, c.ness>>)
Max2(a, b) == IF a > b THEN a ELSE b
\* theorems
WarmupNonEmpty == SizesGiven(c) => Batches(c) >= 1 /\ Active(c) >= 1
NotMoreThanAsked == SizesGiven(c) /\ c.nprior # None => (Batches(c) - 1) * Active(c) < c.nprior \/ Batches(c) = 1
DefaultPopulation == SizesGiven(c) /\ c.nprior = None => Batches(c) * Active(c) >= Effective(c)   \* the first temperature step can reach the target
TrainsOften == SizesGiven(c) => TrainEvery(c) >= 1 /\ TrainEvery(c) <= Max2(Effective(c), c.tf)
Inverse == SizesGiven(c) /\ c.nact # None /\ NEff(c) = None => Active(c) = Effective(c) \div 2
=============================================================================
