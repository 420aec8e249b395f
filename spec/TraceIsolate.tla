---------------------------- MODULE TraceIsolate ----------------------------
(***************************************************************************)
(* Judges recorded interleavings of Isolate.tla: the k-th operation of a   *)
(* sampler leaves it as its k-th operation alone did (InvAlone), and the   *)
(* caller's objects are unchanged (InvInputs).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Clause, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Start == [A |-> <<>>, B |-> <<>>, pos |-> [A |-> 0, B |-> 0]]
Judge(t, e) ==
  CASE e.ev = "alone" -> {}
    [] e.ev = "op" ->
         LET a == t[e.q][t.pos[e.q] + 1] IN
         Cl("C25.same-as-alone", e.state.digs = a.digs /\ e.state.logz = a.logz /\ e.state.post = a.post)
         \cup Cl("C25.counters", e.state.calls = a.calls /\ e.state.t = a.t)
         \cup Cl("C25.own-options", e.state.conf = a.conf)
         \cup Cl("C25.own-stream", e.state.next = a.next)
         \cup Cl("C25.inputs-untouched", e.inputs)
         \cup Cl("C25.other-files-untouched", e.others)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
After(t, e) ==
  CASE e.ev = "alone" -> IF e.q = "A" THEN [Start EXCEPT !.A = e.states] ELSE [t EXCEPT !.B = e.states]
    [] e.ev = "op" -> [t EXCEPT !.pos[e.q] = @ + 1]
    [] OTHER -> t

Init == l = 0 /\ s = Start
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET e == T[l + 1] IN
           /\ LET bad == Judge(s, e) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
           /\ s' = After(s, e)
        /\ l' = l + 1
=============================================================================
