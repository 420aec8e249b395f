-------------------------------- MODULE MC_MH -------------------------------
(***************************************************************************)
(* Why the acceptance rule of Kernel.tla is the right one: on a small      *)
(* space with integer densities pi (target) and rho (reference), a         *)
(* proposal reversible with respect to rho, accepted with probability      *)
(* min(1, pi' rho / (pi rho')), satisfies detailed balance for pi; with    *)
(* rho = 1 this is the random-walk rule.  Exact rational arithmetic, all   *)
(* densities up to MaxD, zero target densities included (never entered).   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS K, MaxD
VARIABLES pi, rho, s, at, step

\* symmetric flow S(i,j) = rho_i q(i,j): any symmetric table; here |i-j|-based
S(i, j) == IF i = j THEN 1 ELSE s[((i + j) % 2) + 1]
Min(a, b) == IF a < b THEN a ELSE b
\* pi_i q_ij alpha_ij * rho_i * rho_j  (common factors cleared)
\*   pi_i * S(i,j)/rho_i * min(1, pi_j rho_i/(pi_i rho_j))
FlowIJ(i, j) == S(i, j) * Min(pi[i] * rho[j], pi[j] * rho[i])
Init == /\ pi \in [1..K -> 0..MaxD] /\ \E i \in 1..K : pi[i] > 0
        /\ rho \in [1..K -> 1..MaxD]
        /\ s \in [1..2 -> 1..2]
        /\ at \in {i \in 1..K : pi[i] > 0}
        /\ step = 0
Accept(i, j) == pi[j] * rho[i] > 0
Certain(i, j) == pi[j] * rho[i] >= pi[i] * rho[j]
Next == /\ step < 2
        /\ \E j \in 1..K : at' \in (IF Accept(at, j) THEN {j} ELSE {}) \cup (IF Certain(at, j) THEN {} ELSE {at})
        /\ step' = step + 1
        /\ UNCHANGED <<pi, rho, s>>
DetailedBalance == \A i, j \in 1..K : FlowIJ(i, j) = FlowIJ(j, i)
InSupp == pi[at] > 0
=============================================================================
