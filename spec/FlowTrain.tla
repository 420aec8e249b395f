----------------------------- MODULE FlowTrain ------------------------------
(* Training of the flow: stopping rule, what is restored, which sample goes *)
(* where, and what the losses are.  Epochs are numbered 0, 1, 2, ...; the   *)
(* flow's parameters have a version, the number of optimiser steps so far.  *)
EXTENDS Floats, Clause

Wait(patience) == (3 * patience) \div 2                       \* int(1.5 * patience)
\* best epoch after k epochs with monitored losses h: the first one that
\* attains the lowest value; -1 if none improved on infinity
Improves(h, i) == FLt(h[i + 1], FPosInf) /\ \A j \in 0..i - 1 : ~FLe(h[j + 1], h[i + 1])
Best(h, k) == LET S == {i \in 0..k - 1 : Improves(h, i)} IN
              IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : j <= i
Zero(n) == IF n < 0 THEN 0 ELSE n
MustStop(h, k, patience) == (k - 1) - Zero(Best(h, k)) >= Wait(patience)
\* epochs run and parameter version left behind (nb optimiser steps per epoch)
StopBad(h, epochs, patience) ==
  LET k == Len(h) IN
  Cl("C18.at-most-epochs", k <= epochs)
  \cup Cl("C18.stops-no-earlier", k < epochs => k > 0 /\ MustStop(h, k, patience))
  \cup Cl("C18.stops-at-first-stall", \A j \in 1..k - 1 : ~MustStop(h, j, patience))
FinalVersion(h, patience, nb) ==
  LET k == Len(h) IN IF k > 0 /\ MustStop(h, k, patience) THEN (Best(h, k) + 1) * nb ELSE k * nb

(* -- a recorded fit --------------------------------------------------------- *)
(* e.calls: one record per density evaluation: ids, values (negative           *)
(* log-densities), version, trained (a gradient was taken through it)          *)
ToSet(s) == {s[i] : i \in 1..Len(s)}
TrainCalls(e, ep, nb) == SelectSeq(e.calls, LAMBDA c : c.trained /\ c.version >= ep * nb /\ c.version < (ep + 1) * nb)
ValidCalls(e, ep, nb) == SelectSeq(e.calls, LAMBDA c : ~c.trained /\ c.version = (ep + 1) * nb)
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs).ids \o Flat(Tail(cs))
BatchLoss(e, c) == FAdd(e.reg, IF e.weighted
   THEN LET w == [i \in 1..Len(c.ids) |-> e.w[c.ids[i] + 1]] IN FDiv(FMul(FInt(1000), VDot(w, c.vals)), VSum(w))
   ELSE VSum(c.vals))
EpochLoss(e, cs, n) == FDiv(VSum([i \in 1..Len(cs) |-> BatchLoss(e, cs[i])]), FInt(n))
(* configured noise: independent normal perturbations of standard deviation    *)
(* noise * mean distance between a sample and its nearest distinct neighbour   *)
Dist2(a, b) == LET v == VSub(a, b) IN VDot(v, v)
Nearest(x, i) == FSqrt(VMin([j \in 1..Len(x) |-> LET q == Dist2(x[i], x[j]) IN IF FLt(F0, q) THEN q ELSE FPosInf]))
NoiseBad(e) ==
  LET sd == FMul(e.noise, FDiv(VSum([i \in 1..Len(e.x) |-> Nearest(e.x, i)]), FInt(Len(e.x))))
      m == Len(e.shift)
  IN \* single precision leaves steps of up to 1e-7 * coordinate in the differences
     IF FLt(sd, FDec("0.1")) THEN {}
     ELSE Cl("C18.noise-scale", FLe(VKS([k \in 1..m |-> NormCdf(FDiv(e.shift[k], sd))]), KSLimit(m)))
CeilDiv(a, b) == (a + b - 1) \div b
FitBad(e) ==
  LET E == Len(e.loss)
      tr == UNION {ToSet(c.ids) : c \in {c \in ToSet(e.calls) : c.trained}}
      va == UNION {ToSet(c.ids) : c \in {c \in ToSet(e.calls) : ~c.trained}}
      all == 0..e.n - 1
      nb == CeilDiv(Cardinality(tr), e.batch)
      mon == IF e.validate THEN e.vloss ELSE e.loss
      once(cs, S) == LET f == Flat(cs) IN Len(f) = Cardinality(S) /\ ToSet(f) = S
      k == FMul(e.split, FInt(e.n))
      close(a, b) == (FIsNaN(a) /\ FIsNaN(b)) \/ FClose(a, b, FDec("2e-4"), FDec("2e-4"))
  IN IF E = 0 THEN Cl("C18.at-most-epochs", e.epochs = 0) ELSE
     Cl("C18.history-per-epoch", Len(e.vloss) = IF e.validate THEN E ELSE 0)
     \cup Cl("C18.split-partition", IF e.validate THEN tr \cap va = {} /\ tr \cup va = all ELSE tr = all /\ va = {})
     \cup Cl("C18.validation-fraction", e.validate => FLe(FAbs(FSub(FInt(Cardinality(va)), k)), FDec("1.001")))
     \cup Cl("C18.each-sample-once-per-epoch", \A ep \in 0..E - 1 : once(TrainCalls(e, ep, nb), tr)
             /\ (e.validate => once(ValidCalls(e, ep, nb), va)))
     \cup Cl("C18.train-loss", \A ep \in 0..E - 1 : close(e.loss[ep + 1], EpochLoss(e, TrainCalls(e, ep, nb), Cardinality(tr))))
     \cup (IF ~e.validate \/ Len(e.vloss) # E THEN {} ELSE
           Cl("C18.valid-loss", \A ep \in 0..E - 1 : close(e.vloss[ep + 1], EpochLoss(e, ValidCalls(e, ep, nb), Cardinality(va)))))
     \cup (IF Len(mon) # E THEN {} ELSE
           StopBad(mon, e.epochs, e.patience) \cup Cl("C18.parameters-left", e.final = FinalVersion(mon, e.patience, nb)))
     \cup Cl("C18.inputs-unmodified", e.pure)
     \cup (IF e.noise = F0 THEN {} ELSE NoiseBad(e))
=============================================================================
