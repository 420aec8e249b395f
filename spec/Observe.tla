------------------------------ MODULE Observe -------------------------------
(***************************************************************************)
(* Observing a run does not change it.                                     *)
(*                                                                         *)
(* A user gives run() calls with growing totals and, between them, looks   *)
(* at the sampler: results, posterior, evidence, saving or pickling it.    *)
(* Options of run() that only concern what is shown or stored (progress,   *)
(* save_every) are chosen freely.  Whatever the user does, the history is  *)
(* the one of a single plain run: iteration k is made with the k-th piece  *)
(* of the random stream and the state left by iteration k-1.               *)
(*   hist  entry k = <<state it started from, position of the stream>>     *)
(*   rng   position of the random stream                                   *)
(*   tune  adapted state (target, proposal scale, flow), one step per      *)
(*         iteration                                                       *)
(* BUG switches one way of disturbing the run on.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Needs, MaxCmds, BUG
VARIABLES hist, rng, tune, cmds, run

vars == <<hist, rng, tune, cmds, run>>
Looks == {"results", "posterior", "evidence", "save", "pickle"}
Idle == [on |-> FALSE, need |-> 0, show |-> FALSE, every |-> 0, made |-> 0]
Init == hist = <<>> /\ rng = 0 /\ tune = 0 /\ cmds = <<>> /\ run = Idle

Start == /\ ~run.on /\ Len(cmds) < MaxCmds
         /\ \E i \in DOMAIN Needs, p \in BOOLEAN, e \in 0..2 :
              /\ run' = [on |-> TRUE, need |-> Needs[i], show |-> p, every |-> e, made |-> 0]
              /\ cmds' = Append(cmds, <<"run", i, p, e>>)
         /\ tune' = IF BUG = "fresh-tuning" /\ hist # <<>> THEN 0 ELSE tune
         /\ UNCHANGED <<hist, rng>>
Look == /\ ~run.on /\ Len(cmds) < MaxCmds
        /\ \E k \in Looks :
             /\ (k \in {"results", "posterior", "evidence"} => hist # <<>>)
             /\ cmds' = Append(cmds, <<k>>)
             /\ rng' = IF BUG = "posterior-draws" /\ k = "posterior" THEN rng + 1 ELSE rng
             /\ hist' = IF BUG = "results-alias" /\ k = "results" THEN SubSeq(hist, 1, Len(hist) - 1) ELSE hist
        /\ UNCHANGED <<tune, run>>
Reached == Len(hist) >= run.need /\ (BUG = "one-more" => run.made > 0)
Due == run.every > 0 /\ run.made > 0 /\ run.made % run.every = 0
Iterate == /\ run.on /\ ~Reached
           /\ hist' = Append(hist, <<tune, IF BUG = "save-draws" /\ Due THEN rng + 1 ELSE rng>>)
           /\ rng' = rng + (IF BUG = "save-draws" /\ Due THEN 2 ELSE 1)
           /\ tune' = IF BUG = "shown-tuning" /\ run.show THEN tune ELSE tune + 1
           /\ run' = [run EXCEPT !.made = @ + 1]
           /\ UNCHANGED cmds
Finish == /\ run.on /\ Reached /\ run' = Idle /\ UNCHANGED <<hist, rng, tune, cmds>>
Next == Start \/ Look \/ Iterate \/ Finish
Spec == Init /\ [][Next]_vars

\* the history of the plain run
Plain(n) == [k \in 1..n |-> <<k - 1, k - 1>>]
InvPlain == hist = Plain(Len(hist))
\* a finished call stops where a plain run with its total stops, or where it already was
Max2(a, b) == IF a > b THEN a ELSE b
InvStop == [][run.on /\ ~run'.on => Len(hist) = Max2(run.need, Len(hist) - run.made)]_vars
InvGrow == [][Len(hist') >= Len(hist)]_vars
EmitDone == (~run.on /\ Len(cmds) = MaxCmds) => PrintT(<<"CMD", cmds>>)
=============================================================================
