----------------------------- MODULE Population -----------------------------
(***************************************************************************)
(* What happens to the fields of the particles.                            *)
(*                                                                         *)
(* A point is a number; Dead points have likelihood -infinity, Outside     *)
(* points have no prior density (the likelihood must not see them).  The   *)
(* population is a set of parallel arrays, one per field, each entry named *)
(* after the point it was computed at: a record is coherent if all its     *)
(* fields carry one name.                                                  *)
(*                                                                         *)
(* cur    arrays of the current walkers     hist  recorded populations     *)
(* seen   points the likelihood was called with                            *)
(* hot    temperature is above zero (at zero, 0 * -infinity is undefined)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Points, Dead, Outside, NAct, Batches, MaxHist, MaxSteps, BUG
VARIABLES cur, hist, pc, steps, seen, hot, disk
vars == <<cur, hist, pc, steps, seen, hot, disk>>

Fields == {"x", "u", "logl", "logp", "logdetj", "blob"}
W == 1..NAct
Inside == Points \ Outside
Live == Inside \ Dead
At(v) == [fd \in Fields |-> v]                       \* all fields computed at the points v
Empty == [fd \in Fields |-> <<>>]
Coherent(c) == \A i \in W : \A fd \in Fields : c[fd][i] = c["x"][i]
Supported(c) == \A i \in W : c["x"][i] \in Live /\ c["logl"][i] \in Live /\ c["logp"][i] \notin Outside

Init == cur = Empty /\ hist = <<>> /\ pc = "warm" /\ steps = 0 /\ seen = {} /\ hot = FALSE /\ disk = <<>>
\* warm-up: a batch of prior draws, infinite ones replaced by finite ones of the batch
Warm == /\ pc = "warm"
        /\ \E v \in [W -> Inside] :
             /\ \E i \in W : v[i] \in Live
             /\ \E r \in [{i \in W : v[i] \in Dead} -> {i \in W : v[i] \in Live}] :
                  LET rep(fd) == [i \in W |-> IF v[i] \in Dead /\ ~(BUG = "warm-field" /\ fd = "blob") THEN v[r[i]] ELSE v[i]]
                  IN cur' = [fd \in Fields |-> rep(fd)]
             /\ seen' = seen \cup {v[i] : i \in W}
        /\ hist' = Append(hist, cur')
        /\ pc' = IF Len(hist') = Batches THEN "weigh" ELSE "warm"
        /\ UNCHANGED <<steps, hot, disk>>
Flat(fd) == [k \in 1..Len(hist) * NAct |-> hist[((k - 1) \div NAct) + 1][fd][((k - 1) % NAct) + 1]]
\* reweight, trim, resample: one index map for all fields
Resample == /\ pc = "weigh" /\ Len(hist) < MaxHist
            /\ \E idx \in [W -> 1..Len(hist) * NAct] :
                 cur' = [fd \in Fields |-> [i \in W |-> Flat(fd)[IF BUG = "index-field" /\ fd = "logdetj" THEN i ELSE idx[i]]]]
            /\ hot' \in {hot, TRUE}
            /\ steps' = 0 /\ pc' = "move" /\ UNCHANGED <<hist, seen, disk>>
\* one MCMC step: proposals outside the support are not evaluated; one mask for all fields
Step == /\ pc = "move" /\ steps < MaxSteps
        /\ \E v \in [W -> Points] :
             LET evald == {i \in W : v[i] \in Inside}
                 can == {i \in evald : v[i] \in Live \/ (BUG = "undefined-ratio" /\ ~hot)}
             IN /\ seen' = seen \cup {v[i] : i \in IF BUG = "no-guard" THEN W ELSE evald}
                /\ \E acc \in SUBSET can :
                     cur' = [fd \in Fields |-> [i \in W |-> IF i \in acc \/ (BUG = "blob-alias" /\ fd = "blob" /\ i \in evald) THEN v[i] ELSE cur[fd][i]]]
        /\ steps' = steps + 1 /\ UNCHANGED <<hist, pc, hot, disk>>
Record == /\ pc = "move" /\ steps >= 1
          /\ hist' = Append(hist, cur) /\ pc' = "weigh" /\ UNCHANGED <<cur, steps, seen, hot, disk>>
Save == /\ pc \in {"warm", "weigh"} /\ disk = <<>> /\ hist # <<>>
        /\ disk' = <<[cur |-> cur, hist |-> hist, pc |-> pc, hot |-> hot]>>
        /\ UNCHANGED <<cur, hist, pc, steps, seen, hot>>
Restore == /\ disk # <<>> /\ pc \in {"warm", "weigh"} /\ Len(hist) > Len(disk[1].hist)
           /\ cur' = disk[1].cur /\ hist' = disk[1].hist /\ pc' = disk[1].pc /\ hot' = disk[1].hot
           /\ UNCHANGED <<steps, seen, disk>>
Next == Warm \/ Resample \/ Step \/ Record \/ Save \/ Restore
Spec == Init /\ [][Next]_vars

InvCoherent == \A k \in 1..Len(hist) : Coherent(hist[k])
InvSupported == \A k \in 1..Len(hist) : Supported(hist[k])
InvEvaluated == seen \cap Outside = {}
InvAncestry == pc = "move" /\ steps = 0 => \A i \in W : \E k \in 1..Len(hist) : \E j \in W : cur["x"][i] = hist[k]["x"][j]
AppendOnly == [][Len(hist') > Len(hist) => SubSeq(hist', 1, Len(hist)) = hist]_vars
=============================================================================
