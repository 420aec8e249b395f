-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Evaluation of the likelihood through some executor.  A request is a      *)
(* sequence of points; the answer is the sequence of their values, in the   *)
(* order of the request, whatever the order in which tasks finish, and      *)
(* every point is evaluated once.  Hence two runs that differ only in the   *)
(* executor have identical observable histories.                            *)
(***************************************************************************)
EXTENDS Floats, Clause

\* o: observations of a run [entries, posts, z, e, evals, nevals, calls, add, blobs]
SelfBad(o) ==
  Cl("C13.each-point-evaluated-once", o.nevals = o.calls \/ o.calls = -1)
  \cup Cl("C13.arguments-passed", FClose(o.add[1], o.expect, FDec("1e-9"), FDec("1e-7")) /\ FClose(o.add[2], o.expect, FDec("1e-9"), FDec("1e-7")))
TwinBad(ref, o) ==
  SelfBad(o)
  \cup Cl("C13.same-history", o.entries = ref.entries)
  \cup Cl("C13.same-blobs", o.blobs = ref.blobs)
  \cup Cl("C13.same-posterior", o.posts = ref.posts)
  \cup Cl("C13.same-evidence", o.z = ref.z /\ o.e = ref.e)
  \cup Cl("C13.same-evaluations", o.evals = ref.evals /\ o.nevals = ref.nevals)
=============================================================================
