-------------------------------- MODULE Fold --------------------------------
(* Boundary conditions on an integer lattice: what a value outside          *)
(* lo..hi is folded to.                                                     *)
EXTENDS Integers

Periodic(lo, hi, x) == IF x >= lo /\ x <= hi THEN {x}
                       ELSE {y \in lo..hi : (y - x) % (hi - lo) = 0}          \* both edges are the same point
Reflective(lo, hi, x) == {y \in lo..hi : \/ (y - x) % (2 * (hi - lo)) = 0
                                         \/ (y - (2 * lo - x)) % (2 * (hi - lo)) = 0}
Folded(kind, lo, hi, x) == CASE kind = "none" -> {x}
                             [] kind = "periodic" -> Periodic(lo, hi, x)
                             [] kind = "reflective" -> Reflective(lo, hi, x)
=============================================================================
