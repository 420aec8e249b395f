--------------------------- MODULE MC_Systematic ----------------------------
(* Design check: the pointer walk over the cumulative weights realises the  *)
(* comb of Resample.tla; counts are floor/ceil, zero weights are skipped,   *)
(* and averaging over the offsets gives exactly size*w_i/W.                 *)
EXTENDS Resample, TLC
CONSTANTS MaxN, MaxW, MaxSize
VARIABLES w, size, r, k, j, cum, idx

W == ISum(w, Len(w))
num == 2 * r + 1
den == 2 * W
vars == <<w, size, r, k, j, cum, idx>>
Init == /\ w \in {v \in UNION {[1..n -> 0..MaxW] : n \in 1..MaxN} : \E i \in DOMAIN v : v[i] > 0}
        /\ size \in 1..MaxSize
        /\ r \in 0..ISum(w, Len(w)) - 1
        /\ k = 0 /\ j = 1 /\ cum = w[1] /\ idx = <<>>
Above == W * (num + den * k) >= cum * den * size     \* tooth k at or beyond the cumulative weight
Advance == k < size /\ Above /\ j' = j + 1 /\ cum' = cum + w[j + 1] /\ UNCHANGED <<w, size, r, k, idx>>
Emit == k < size /\ ~Above /\ idx' = Append(idx, j) /\ k' = k + 1 /\ UNCHANGED <<w, size, r, j, cum>>
Next == Advance \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == k = size
InRange == j <= Len(w)
WalkIsComb == Done => idx = Comb(w, size, num, den)
Counts == Done => CombBad(w, size, idx) = {}
Monotone == \A a \in 1..Len(idx) - 1 : idx[a] <= idx[a + 1]
\* exact unbiasedness over the offset grid (evaluated once per weight vector and size)
RECURSIVE TotalCount(_, _, _, _)
TotalCount(ww, s, i, q) ==
  IF q < 0 THEN 0
  ELSE Cardinality({a \in 1..s : Comb(ww, s, 2 * q + 1, 2 * ISum(ww, Len(ww)))[a] = i}) + TotalCount(ww, s, i, q - 1)
Unbiased == (Done /\ r = 0) => \A i \in 1..Len(w) : TotalCount(w, size, i, W - 1) = size * w[i]
Terminates == <>Done
=============================================================================
