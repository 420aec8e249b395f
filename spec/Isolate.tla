------------------------------ MODULE Isolate -------------------------------
(***************************************************************************)
(* Several samplers in one process.                                        *)
(*                                                                         *)
(* Samplers A and B are built from objects the caller owns (prior, option  *)
(* dictionaries, argument lists, index lists) and are run, read, saved and *)
(* loaded in any interleaving.  The only things they share are the global  *)
(* random stream - the caller gives each sampler its own by exchanging the *)
(* generators' state at each switch - and the caller's objects, which no   *)
(* sampler changes.  Then each sampler does exactly what it does alone.    *)
(*   hist[q]  entry k = <<option in force, prior objects, stream position>>*)
(*   opt[q]   options q was built with (q's own), dflt: module defaults    *)
(*   obj      the caller's objects, version number                         *)
(*   pos[q]   position of q's stream                                       *)
(* BUG switches one way of leaking on.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, BUG
VARIABLES built, hist, opt, dflt, obj, pos, ops

vars == <<built, hist, opt, dflt, obj, pos, ops>>
Q == {"A", "B"}
Own(q) == IF q = "A" THEN 1 ELSE 2
Init == /\ built = [q \in Q |-> FALSE] /\ hist = [q \in Q |-> <<>>] /\ opt = [q \in Q |-> 0]
        /\ dflt = 0 /\ obj = 0 /\ pos = [q \in Q |-> 0] /\ ops = <<>>

More == Len(ops) < MaxOps
Build(q) == /\ More /\ ~built[q]
            /\ built' = [built EXCEPT ![q] = TRUE]
            /\ opt' = [opt EXCEPT ![q] = Own(q)]
            /\ dflt' = IF BUG = "shared-default" THEN Own(q) ELSE dflt
            /\ obj' = IF BUG = "input-edited" THEN obj + 1 ELSE obj
            /\ ops' = Append(ops, <<q, "build">>)
            /\ UNCHANGED <<hist, pos>>
InForce(q) == IF BUG = "shared-default" THEN dflt ELSE opt[q]
Run(q) == /\ More /\ built[q]
          /\ hist' = [hist EXCEPT ![q] = Append(@, <<InForce(q), obj, pos[q]>>)]
          /\ pos' = [p \in Q |-> IF p = q \/ (BUG = "shared-stream" /\ built[p]) THEN pos[p] + 1 ELSE pos[p]]
          /\ obj' = IF BUG = "input-used-up" THEN obj + 1 ELSE obj
          /\ ops' = Append(ops, <<q, "run">>)
          /\ UNCHANGED <<built, opt, dflt>>
Look(q) == /\ More /\ built[q] /\ hist[q] # <<>>
           /\ ops' = Append(ops, <<q, "look">>)
           /\ hist' = IF BUG = "shared-results" THEN [p \in Q |-> hist[q]] ELSE hist
           /\ UNCHANGED <<built, opt, dflt, obj, pos>>
Save(q) == /\ More /\ built[q]
           /\ ops' = Append(ops, <<q, "save">>)
           /\ UNCHANGED <<built, hist, opt, dflt, obj, pos>>
Next == \E q \in Q : Build(q) \/ Run(q) \/ Look(q) \/ Save(q)
Spec == Init /\ [][Next]_vars

Alone(q, n) == [k \in 1..n |-> <<Own(q), 0, k - 1>>]
InvAlone == \A q \in Q : hist[q] = Alone(q, Len(hist[q]))
InvInputs == obj = 0
InvOthers == [][\A q \in Q : Len(hist'[q]) # Len(hist[q]) => ops'[Len(ops')] = <<q, "run">>]_vars
Done == Len(ops) = MaxOps /\ \A q \in Q : hist[q] # <<>>
EmitDone == Done => PrintT(<<"CMD", ops>>)
=============================================================================
