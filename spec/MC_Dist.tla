------------------------------- MODULE MC_Dist -------------------------------
(***************************************************************************)
(* Executors: serial, vectorised, or a pool whose workers pick up chunks of *)
(* the request and finish in any order, results placed by position.  For    *)
(* every request sequence and every interleaving the answer equals the      *)
(* serial one and each position is evaluated once.  The variant that        *)
(* collects results in completion order (Ordered = FALSE) violates it.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Points, MaxLen, Workers, Chunks, Ordered
VARIABLES req, chunk, next, busy, res, evals, order
vars == <<req, chunk, next, busy, res, evals, order>>
Reqs == UNION {[1..n -> Points] : n \in 0..MaxLen}
F(p) == 10 * p + 1
Init == /\ req \in Reqs /\ chunk \in Chunks /\ next = 1 /\ busy = [w \in Workers |-> <<>>]
        /\ res = [i \in 1..Len(req) |-> 0] /\ evals = [i \in 1..Len(req) |-> 0] /\ order = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Take(w) == /\ busy[w] = <<>> /\ next <= Len(req)
           /\ LET hi == Min(next + chunk - 1, Len(req)) IN
              /\ busy' = [busy EXCEPT ![w] = [i \in 1..hi - next + 1 |-> next + i - 1]]
              /\ next' = hi + 1
           /\ UNCHANGED <<req, chunk, res, evals, order>>
Finish(w) == /\ busy[w] # <<>>
             /\ LET idx == {busy[w][i] : i \in 1..Len(busy[w])} IN
                /\ res' = [i \in 1..Len(req) |-> IF i \in idx THEN F(req[i]) ELSE res[i]]
                /\ evals' = [i \in 1..Len(req) |-> evals[i] + IF i \in idx THEN 1 ELSE 0]
                /\ order' = order \o [i \in 1..Len(busy[w]) |-> F(req[busy[w][i]])]
             /\ busy' = [busy EXCEPT ![w] = <<>>] /\ UNCHANGED <<req, chunk, next>>
Next == \E w \in Workers : Take(w) \/ Finish(w)
Done == next > Len(req) /\ \A w \in Workers : busy[w] = <<>>
Answer == IF Ordered THEN res ELSE order
SameAsSerial == Done => Answer = [i \in 1..Len(req) |-> F(req[i])]
Once == (\A i \in 1..Len(req) : evals[i] <= 1) /\ (Done => \A i \in 1..Len(req) : evals[i] = 1)
=============================================================================
