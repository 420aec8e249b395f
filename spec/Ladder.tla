------------------------------- MODULE Ladder -------------------------------
(***************************************************************************)
(* The temperature ladder as an algorithm: keep, jump or bisect.           *)
(*                                                                         *)
(* Temperatures are the grid points 0..G of [0,1].  Each iteration the     *)
(* environment presents the sample size of the history as a function f of  *)
(* the temperature (any function that changes by at most one between       *)
(* neighbours: the sample size is continuous); before the next iteration   *)
(* new particles may change it arbitrarily.                                *)
(*                                                                         *)
(* beta   ladder so far        f, tgt  sizes and target of the iteration   *)
(* pc     "pick" | "bisect" | "record"     lo, hi  bracket of the search   *)
(***************************************************************************)
EXTENDS Weights, Integers, Sequences
CONSTANTS G, K, Targets, MaxIter, BUG
VARIABLES ladder, f, tgt, pc, lo, hi, b, sPrev
vars == <<ladder, f, tgt, pc, lo, hi, b, sPrev>>

Abs(x) == IF x < 0 THEN -x ELSE x
Shapes == {g \in [0..G -> 1..K] : \A i \in 0..G - 1 : Abs(g[i] - g[i + 1]) <= 1}
Bot(q) == q[Len(q)]
Temp(i) == FRat(i, G)

Init == /\ ladder = <<0>> /\ f \in Shapes /\ tgt \in Targets
        /\ pc = "pick" /\ lo = 0 /\ hi = G /\ b = 0 /\ sPrev = 0
Pick == /\ pc = "pick"
        /\ LET p == Bot(ladder) IN
           /\ sPrev' = f[p]
           /\ IF f[p] <= tgt THEN b' = p /\ pc' = "record" /\ UNCHANGED <<lo, hi>>
              ELSE IF f[G] >= tgt THEN b' = G /\ pc' = "record" /\ UNCHANGED <<lo, hi>>
              ELSE /\ pc' = "bisect" /\ b' = p
                   /\ lo' = IF BUG = "restart" THEN 0 ELSE p
                   /\ hi' = G
        /\ UNCHANGED <<ladder, f, tgt>>
Bisect == /\ pc = "bisect"
          /\ LET m == (lo + hi) \div 2 IN
             /\ b' = m
             /\ IF f[m] = tgt THEN pc' = "record" /\ UNCHANGED <<lo, hi>>
                ELSE IF (f[m] < tgt) = (BUG # "sides") THEN hi' = m /\ UNCHANGED <<lo, pc>>
                ELSE lo' = m /\ UNCHANGED <<hi, pc>>
          /\ UNCHANGED <<ladder, f, tgt, sPrev>>
\* the bracket keeps a crossing, so the search cannot run dry
Record == /\ pc = "record" /\ Len(ladder) < MaxIter /\ Bot(ladder) < G
          /\ ladder' = Append(ladder, b)
          /\ f' \in Shapes /\ tgt' \in Targets
          /\ pc' = "pick" /\ UNCHANGED <<lo, hi, b, sPrev>>
Next == Pick \/ Bisect \/ Record
Spec == Init /\ [][Next]_vars /\ WF_vars(Pick \/ Bisect)

Rule == pc = "record" => RuleHolds(Temp(Bot(ladder)), Temp(b), FInt(sPrev), FInt(f[G]), FInt(f[b]), FInt(tgt))
Monotone == \A i \in 1..Len(ladder) - 1 : ladder[i] <= ladder[i + 1]
InRange == \A i \in 1..Len(ladder) : ladder[i] \in 0..G
Bracket == pc = "bisect" => f[lo] > tgt /\ f[hi] < tgt /\ hi - lo >= 2
SearchEnds == pc = "bisect" ~> pc = "record"
=============================================================================
