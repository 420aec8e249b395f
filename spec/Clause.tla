------------------------------- MODULE Clause -------------------------------
(* A clause is a named requirement; a judgement is the set of the names of  *)
(* the clauses that do not hold.  The design models take only steps whose   *)
(* judgement is empty, the trace specifications report it line by line.     *)
Cl(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
