---------------------------- MODULE MC_Evidence ----------------------------
(***************************************************************************)
(* Why the average is over all draws: on every tiny discrete space, for     *)
(* every flow density q (in units of 1/K) and every target f >= 0 (0 means  *)
(* outside the support), the expectation of the estimator over all draw     *)
(* sequences is the exact evidence SUM f.  The variant that divides by the  *)
(* number of supported draws is biased (checked as a sanity theorem).       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS P, K, FMAX, NMAX
Pts == 1..P
VARIABLES q, f, n, draws
Rats == [Pts -> 1..K]
Sum(g) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE g[i] + S(i - 1) IN S(P)
RECURSIVE Prod(_, _)
Prod(g, ds) == IF ds = <<>> THEN 1 ELSE g[Head(ds)] * Prod(g, Tail(ds))
Seqs(k) == [1..k -> Pts]
RECURSIVE SumSet(_, _)
SumSet(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumSet(S \ {x}, g)
\* weight of a draw f/q: common denominator D = product of all q
D(qq) == Prod(qq, [i \in Pts |-> i])
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* n * K^(n-1)/.. : E[ sum_i w(d_i) ] * (K^n) = sum over sequences prod q(d) * sum w(d)
Expect(qq, ff, k) == SumSet(Seqs(k), [ds \in Seqs(k) |-> Prod(qq, ds) * SumSeq([i \in 1..k |-> ff[ds[i]] * (D(qq) \div qq[ds[i]])])])
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Init == /\ q \in {g \in Rats : Sum(g) = K} /\ f \in [Pts -> 0..FMAX] /\ n \in 1..NMAX /\ draws = <<>>
Next == Len(draws) < n /\ \E d \in Pts : draws' = Append(draws, d) /\ UNCHANGED <<q, f, n>>
\* with q_i/K the probabilities: w = f K / q;  E[sum w]/n = sum f
Unbiased == draws = <<>> => Expect(q, f, n) * K = n * Sum(f) * D(q) * Pow(K, n)
\* a partial average never exceeds what some target makes possible; zero-weight draws still count
Partial == draws # <<>> /\ (\A i \in 1..Len(draws) : f[draws[i]] = 0) => SumSeq([i \in 1..Len(draws) |-> f[draws[i]]]) = 0
=============================================================================
