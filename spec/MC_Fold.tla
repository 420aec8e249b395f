------------------------------ MODULE MC_Fold -------------------------------
(* Unit moves across the nearest edge (subtract a period, mirror at the     *)
(* edge) always end, and end at the point Fold.tla names, which is unique   *)
(* up to the identification of the two edges of a period.                   *)
EXTENDS Fold, FiniteSets
CONSTANTS R, W
VARIABLES lo, hi, kind, x0, x

vars == <<lo, hi, kind, x0, x>>
Init == /\ lo \in -2..2 /\ hi \in lo + 1..lo + W
        /\ kind \in {"periodic", "reflective"}
        /\ x0 \in -R..R /\ x = x0
Inside == lo <= x /\ x <= hi
Move == /\ ~Inside
        /\ x' = CASE kind = "periodic" /\ x > hi -> x - (hi - lo)
                  [] kind = "periodic" /\ x < lo -> x + (hi - lo)
                  [] kind = "reflective" /\ x > hi -> 2 * hi - x
                  [] kind = "reflective" /\ x < lo -> 2 * lo - x
        /\ UNCHANGED <<lo, hi, kind, x0>>
Spec == Init /\ [][Move]_vars /\ WF_vars(Move)
Ends == <>Inside
Right == Inside => x \in Folded(kind, lo, hi, x0)
Unique == LET S == Folded(kind, lo, hi, x0) IN S # {} /\ (Cardinality(S) = 1 \/ (kind = "periodic" /\ S = {lo, hi}))
Same == Folded("reflective", lo, hi, x0) = Folded("reflective", lo, hi, IF kind = "reflective" THEN x ELSE x0)
=============================================================================
