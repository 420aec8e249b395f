----------------------------- MODULE Interrupt -----------------------------
(***************************************************************************)
(* One annealing iteration as the sequence of stages that change the live  *)
(* sampler, with user code failing between or inside them, the run being   *)
(* continued in place or saved and resumed elsewhere.                      *)
(*                                                                         *)
(* hist   recorded iterations, each [beta, target]: the history            *)
(* live   the sampler's own fields: counter t, target, beta of the current *)
(*        particles, untrained flag                                        *)
(* before the fields at the start of the iteration in progress             *)
(* stage  "idle" between run() calls, "loop" at the loop head, otherwise   *)
(*        the stage of the iteration that is about to be executed          *)
(* fits   completed trainings of the flow (ghost)                          *)
(* BUG    leaves one field unrestored when the iteration is interrupted    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Top,       \* temperatures 0..Top, Top being 1.0
          Targets, MaxIter, MaxFaults, BUG
VARIABLES hist, live, before, stage, fits, faults, disk, done
vars == <<hist, live, before, stage, fits, faults, disk, done>>

T0 == CHOOSE t \in Targets : \A s \in Targets : t <= s
Start == [t |-> 0, target |-> T0, beta |-> 0, untrained |-> TRUE]
Init == /\ hist = <<>> /\ live = Start /\ before = Start /\ stage = "idle" /\ fits = 0 /\ faults = 0 /\ done = FALSE
        /\ disk = [hist |-> <<>>, live |-> Start, fits |-> 0]

\* the total is reached once a temperature-one iteration is recorded and, nondeterministically, enough samples are there
Run == stage = "idle" /\ Len(hist) < MaxIter /\ stage' = "loop" /\ done' = FALSE /\ UNCHANGED <<hist, live, before, fits, faults, disk>>
Stop == stage = "loop" /\ live.beta = Top /\ stage' = "evidence" /\ UNCHANGED <<hist, live, before, fits, faults, disk, done>>
Evidence == stage = "evidence" /\ stage' = "idle" /\ done' = TRUE /\ UNCHANGED <<hist, live, before, fits, faults, disk>>
Reweight == /\ stage = "loop" /\ Len(hist) < MaxIter
            /\ before' = live
            /\ \E b \in live.beta..Top, g \in Targets : live' = [live EXCEPT !.t = @ + 1, !.beta = b, !.target = g]
            /\ stage' = "train" /\ UNCHANGED <<hist, fits, faults, disk, done>>
\* the flag is cleared before the fit is made
Train == /\ stage = "train"
         /\ \/ live' = [live EXCEPT !.untrained = FALSE] /\ stage' = "fit"
            \/ ~live.untrained /\ live' = live /\ stage' = "mutate"
         /\ UNCHANGED <<hist, before, fits, faults, disk, done>>
Fit == stage = "fit" /\ fits' = fits + 1 /\ stage' = "mutate" /\ UNCHANGED <<hist, live, before, faults, disk, done>>
Record == /\ stage = "mutate"
          /\ hist' = Append(hist, [beta |-> live.beta, target |-> live.target])
          /\ stage' = "loop" /\ UNCHANGED <<live, before, fits, faults, disk, done>>
\* user code (likelihood, prior, flow) fails
Restored == [t |-> IF BUG = "counter" THEN live.t ELSE before.t, target |-> IF BUG = "target" THEN live.target ELSE before.target,
             beta |-> IF BUG = "current" THEN live.beta ELSE before.beta, untrained |-> IF BUG = "untrained" THEN live.untrained ELSE before.untrained]
Fault == /\ stage \in {"train", "fit", "mutate", "evidence"} /\ faults < MaxFaults
         /\ live' = IF stage = "evidence" THEN live ELSE Restored
         /\ stage' = "idle" /\ faults' = faults + 1 /\ UNCHANGED <<hist, before, fits, disk, done>>
Save == stage \in {"idle", "loop"} /\ disk' = [hist |-> hist, live |-> live, fits |-> fits] /\ UNCHANGED <<hist, live, before, stage, fits, faults, done>>
Resume == /\ stage = "idle" /\ hist' = disk.hist /\ live' = disk.live /\ fits' = disk.fits /\ done' = FALSE
          /\ UNCHANGED <<before, stage, faults, disk>>
Next == Run \/ Stop \/ Evidence \/ Reweight \/ Train \/ Fit \/ Record \/ Fault \/ Save \/ Resume
Spec == Init /\ [][Next]_vars

AtRest(h, v) == /\ v.t = Len(h)
                /\ IF h = <<>> THEN v.target = T0 /\ v.beta = 0 ELSE v.target = h[Len(h)].target /\ v.beta = h[Len(h)].beta
Consistent == stage \in {"idle", "loop"} => AtRest(hist, live)
OnDisk == AtRest(disk.hist, disk.live)
FlowUsable == (stage \in {"idle", "loop", "mutate"} /\ ~live.untrained) => fits > 0
DiskFlow == ~disk.live.untrained => disk.fits > 0
OnlyAtOne == done => hist # <<>> /\ hist[Len(hist)].beta = Top
Monotone == \A k \in 1..Len(hist) - 1 : hist[k].beta <= hist[k + 1].beta
=============================================================================
