------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Systematic resampling: one offset in [0,1), comb of `size` teeth over   *)
(* the cumulative weights.                                                 *)
(***************************************************************************)
EXTENDS Floats, Clause

(* Exact comb on integer weights w (sum W) with offset (2r+1)/(2W): tooth   *)
(* k (0-based) sits at ((2r+1)/(2W) + k)/size, never on a boundary.         *)
RECURSIVE ISum(_, _)
ISum(w, k) == IF k = 0 THEN 0 ELSE w[k] + ISum(w, k - 1)
Tooth(w, size, num, den, k) == \* first index whose cumulative weight exceeds the tooth
  LET W == ISum(w, Len(w)) IN
  CHOOSE j \in 1..Len(w) :
     /\ W * (num + den * k) < ISum(w, j) * den * size
     /\ \A i \in 1..j - 1 : W * (num + den * k) >= ISum(w, i) * den * size
Comb(w, size, num, den) == [k \in 1..size |-> Tooth(w, size, num, den, k - 1)]

FloorDiv(a, b) == a \div b
CeilDiv(a, b) == (a + b - 1) \div b
CombBad(w, size, idx) ==
  LET W == ISum(w, Len(w)) IN
  Cl("C08.sorted", \A k \in 1..size - 1 : idx[k] <= idx[k + 1])
  \cup Cl("C08.counts", \A i \in 1..Len(w) :
       LET c == Cardinality({k \in 1..size : idx[k] = i})
       IN c \in FloorDiv(size * w[i], W)..CeilDiv(size * w[i], W))

(* Recorded calls: real-valued weights, indices 1-based.                    *)
SystBad(p, w, size, idx) ==
  LET n == Len(w)
      W == VSum(w)
      eps == FMul(FDec("1e-9"), FInt(size))
      cnt == ICounts(idx, n)
      want(i) == FDiv(FMul(FInt(size), w[i]), W)
  IN Cl(p \o "size", Len(idx) = size)
     \cup Cl(p \o "valid", \A k \in 1..Len(idx) : idx[k] \in 1..n)
     \cup Cl(p \o "sorted", \A k \in 1..Len(idx) - 1 : idx[k] <= idx[k + 1])
     \cup Cl(p \o "counts", \A i \in 1..n : /\ cnt[i] >= FFloor(FSub(want(i), eps))
                                           /\ cnt[i] <= FCeil(FAdd(want(i), eps)))
     \cup Cl(p \o "zero-weight-drawn", \A i \in 1..n : FEq(w[i], F0) => cnt[i] = 0)
=============================================================================
