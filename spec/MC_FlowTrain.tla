---------------------------- MODULE MC_FlowTrain ----------------------------
(* The training loop as a state machine over every sequence of losses; the  *)
(* declarative rule of FlowTrain.tla is what it implements.                 *)
EXTENDS FlowTrain
CONSTANTS MaxEpochs, MaxPatience, Levels
VARIABLES epochs, patience, h, best, bestAt, params, saved, stopped

vars == <<epochs, patience, h, best, bestAt, params, saved, stopped>>
Loss(v) == IF v = 0 THEN FDiv(F0, F0) ELSE FInt(v)          \* 0 stands for NaN
Hist == [i \in 1..Len(h) |-> Loss(h[i])]
Init == /\ epochs \in 0..MaxEpochs /\ patience \in 0..MaxPatience
        /\ h = <<>> /\ best = FPosInf /\ bestAt = 0 /\ params = 0 /\ saved = 0 /\ stopped = FALSE
Epoch(v) ==
  /\ ~stopped /\ Len(h) < epochs
  /\ h' = Append(h, v)
  /\ LET better == FLt(Loss(v), best)
         at == IF better THEN Len(h) ELSE bestAt
     IN /\ best' = IF better THEN Loss(v) ELSE best
        /\ bestAt' = at
        /\ saved' = IF better THEN params + 1 ELSE saved
        /\ stopped' = (Len(h) - at >= Wait(patience))
        /\ params' = IF stopped' THEN saved' ELSE params + 1
  /\ UNCHANGED <<epochs, patience>>
Next == \E v \in Levels : Epoch(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == stopped \/ Len(h) = epochs
Right == Finished => StopBad(Hist, epochs, patience) = {} /\ params = FinalVersion(Hist, patience, 1)
NotEarly == ~Finished => \A j \in 1..Len(h) : ~MustStop(Hist, j, patience)
Ends == <>Finished
=============================================================================
