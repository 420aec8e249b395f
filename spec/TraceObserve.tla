---------------------------- MODULE TraceObserve ----------------------------
(***************************************************************************)
(* Judges recorded executions of Observe.tla's commands.  The model state  *)
(* is the plain history, where plain runs to each total stop, and the      *)
(* number of entries made so far: by InvPlain and InvStop of Observe.tla   *)
(* the history after any command is the plain one cut to that number.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Clause, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Max2(a, b) == IF a > b THEN a ELSE b
Start == [plain |-> [digs |-> <<>>, stops |-> <<>>], n |-> 0]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Judge(t, e) ==
  CASE e.ev = "plain" ->
         \* a plain run with a smaller total is the beginning of the one with the larger total
         Cl("C24.same-length", \A k \in 1..Len(e.stops) - 1 : e.stops[k] <= e.stops[k + 1])
    [] e.ev = "ran" ->
         LET need == Max2(t.n, t.plain.stops[e.which]) IN
         Cl("C24.same-history", Prefix(e.digs, t.plain.digs))
         \cup Cl("C24.same-length", Len(e.digs) = need)
         \cup Cl("C24.counters", e.t \in {-1, need} /\ e.total \in {-1, e.evals})
         \cup Cl("C24.pool-kept", e.pooled = e.evals)
         \cup Cl("C24.same-results", e.last => e.logz = t.plain.logz /\ e.err = t.plain.err /\ e.post = t.plain.post
                                               /\ e.evals = t.plain.evals)
    [] e.ev = "looked" ->
         Cl("C24.look-changes-nothing", e.digs = SubSeq(t.plain.digs, 1, t.n))
         \cup Cl("C24.counters", e.total \in {-1, e.evals})
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}

After(t, e) ==
  CASE e.ev = "plain" -> [Start EXCEPT !.plain = e]
    [] e.ev = "ran" -> [t EXCEPT !.n = Max2(t.n, t.plain.stops[e.which])]
    [] OTHER -> t

Init == l = 0 /\ s = Start
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET e == T[l + 1] IN
           /\ LET bad == Judge(s, e) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
           /\ s' = After(s, e)
        /\ l' = l + 1
=============================================================================
