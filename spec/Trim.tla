-------------------------------- MODULE Trim --------------------------------
(***************************************************************************)
(* Trimming a weighted sample to a fraction of its effective sample size.  *)
(* Thresholds are the percentiles 0..99 of the weights on a grid of `bins` *)
(* points (linear interpolation between order statistics).                 *)
(***************************************************************************)
EXTENDS Floats, Clause

TEps == FDec("1e-9")
\* order statistics and prefix sums, from the heaviest down
Desc(w) == VRev(VSort(w))
Ratio(c1, c2, k, n) == \* ESS of the k heaviest over ESS of all n
  FDiv(FDiv(FMul(c1[k], c1[k]), c2[k]), FDiv(FMul(c1[n], c1[n]), c2[n]))

\* numbers of kept particles admissible for grid point i (0-based): where the
\* percentile falls on an order statistic up to rounding, both sides are.
Position(n, bins, i) == IF bins = 1 THEN F0 ELSE FDiv(FMul(FRat(99 * i, bins - 1), FInt(n - 1)), FInt(100))
KeptAt(d, n, bins, i) ==
  LET v == Position(n, bins, i)
      js == {FCeil(v), FCeil(FSub(v, TEps)), FCeil(FAdd(v, TEps))}
      \* ascending 0-based rank j is descending 1-based rank n - j
  IN { VCountGe(d, d[IF n - j < 1 THEN 1 ELSE n - j]) : j \in {j \in js : j >= 0} }

(* w: the weights given; ids: kept positions (1-based) in order; wk: weights returned *)
TrimBad(p, w, ess, bins, ids, wk) ==
  LET n == Len(w)
      m == Len(ids)
      valid == m >= 1 /\ \A k \in 1..m : ids[k] \in 1..n
      ordered == \A k \in 1..m - 1 : ids[k] < ids[k + 1]
  IN IF ~valid \/ Len(wk) # m THEN {p \o "trim-aligned"}
     ELSE LET kept == VPick(w, ids)
              keptset == {ids[k] : k \in 1..m}
              mn == VMin(kept)
              d == Desc(VScale(FDiv(F1, VMax(w)), w))
              c1 == VCum(d)
              c2 == VCum(VMul(d, d))
              upper == VCountGe(w, mn) = m
              grid == [i \in 0..bins - 1 |-> KeptAt(d, n, bins, i)]
          IN Cl(p \o "trim-aligned", ordered /\ Cardinality(keptset) = m)
             \cup Cl(p \o "trim-keeps-heaviest", upper)
             \cup Cl(p \o "trim-renormalised", VClose(wk, VScale(FDiv(F1, VSum(kept)), kept), FDec("1e-9"), FDec("1e-300")))
             \cup Cl(p \o "trim-sums-to-one", FClose(VSum(wk), F1, F0, FDec("1e-9")))
             \cup Cl(p \o "trim-ess", FLe(FSub(ess, TEps), Ratio(c1, c2, m, n)))
             \cup Cl(p \o "trim-grid", \E i \in 0..bins - 1 : m \in grid[i])
             \cup Cl(p \o "trim-most-aggressive",
                     \A i \in 0..bins - 1 : (\A k \in grid[i] : k < m)
                        => \E k \in grid[i] : FLt(Ratio(c1, c2, k, n), FAdd(ess, TEps)))

(* The reference procedure: scan the grid from the most aggressive point.   *)
RECURSIVE ScanFrom(_, _, _, _, _, _, _)
ScanFrom(d, c1, c2, n, bins, ess, i) ==
  LET v == Position(n, bins, i)
      j == FCeil(v)
      k == VCountGe(d, d[IF n - j < 1 THEN 1 ELSE n - j])
  IN IF FLe(ess, Ratio(c1, c2, k, n)) \/ i = 0 THEN k
     ELSE ScanFrom(d, c1, c2, n, bins, ess, i - 1)
TrimRef(w, ess, bins) ==
  LET d == Desc(w)
      k == ScanFrom(d, VCum(d), VCum(VMul(d, d)), Len(w), bins, ess, bins - 1)
      mn == d[k]
      ids == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : FLe(mn, w[i]))
      kept == VPick(w, ids)
  IN [ids |-> ids, wk |-> VScale(FDiv(F1, VSum(kept)), kept), cut |-> mn]
=============================================================================
