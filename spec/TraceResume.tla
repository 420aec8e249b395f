----------------------------- MODULE TraceResume ----------------------------
(***************************************************************************)
(* Judges recorded executions of Lineage.tla's commands.  The model state  *)
(* is: ref (the uninterrupted history), the length of the live lineage,    *)
(* the files on disk with the lineage length they hold, and whether the    *)
(* random stream is still the reference's (clean).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Clause, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ToSet(q) == {q[i] : i \in 1..Len(q)}
FileAt(c, n) == c.dir \o "/" \o c.label \o "_" \o ToString(n) \o ".state"
FinalFile(c) == c.dir \o "/" \o c.label \o "_final.state"
\* files a run() call from length t0 to length n leaves behind
Scheduled(c, t0, n) == IF c.every = 0 THEN {}
                       ELSE {FileAt(c, k) : k \in {k \in t0 + 1..n - 1 : (k - t0) % c.every = 0}}
Start == [ref |-> <<>>, refcalls |-> <<>>, reflogz |-> <<>>, referr |-> <<>>, reftot |-> 0, n |-> 0, t0 |-> 0, clean |-> TRUE,
          files |-> <<>>, call |-> [ev |-> "none"], batches |-> 0, nact |-> 0, nev |-> 0, hadprior |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

HistoryBad(t, e) ==
  Cl("C11.same-history", Prefix(e.digs, t.ref))
  \cup Cl("C11.nothing-lost", Len(e.digs) >= t.n)
  \cup Cl("C05.iteration-index", \A k \in 1..Len(e.iters) : e.iters[k] = k - 1)
  \cup Cl("C05.results-current", \A k \in 1..Len(e.lens) : e.lens[k] = Len(e.digs))
  \cup Cl("C05.iteration-counter", e.t \in {-1, Len(e.digs)})
  \cup Cl("C06.calls-across-resume", e.total \in {-1, e.evals} /\ (t.nev = 0 => Prefix(e.calls, t.refcalls)))
  \cup Cl("C11.prior-drawn-once", e.rvs <= IF t.hadprior THEN 0 ELSE 1)

Judge(t, e) ==
  CASE e.ev = "problem" -> {}
    [] e.ev = "ref" -> Cl("C11.reference", Len(e.digs) > t.batches)
    [] e.ev \in {"call", "new", "load"} -> {}
    [] e.ev = "saved" ->
         LET n == e.n IN
         Cl("C11.file-holds-history", e.digs = SubSeq(t.ref, 1, n))
         \cup Cl("C11.file-state", e.t \in {-1, n} /\ e.calls \in {-1, e.evals})
         \cup Cl("C11.file-name", e.manual \/ t.call.ev = "none"
                   \/ e.path = FinalFile(t.call)
                   \/ (e.path = FileAt(t.call, n) /\ t.call.every > 0 /\ n > t.t0 /\ (n - t.t0) % t.call.every = 0))
    [] e.ev = "done" ->
         HistoryBad(t, e)
         \cup Cl("C11.file-schedule", t.call.every > 0 =>
                 ToSet(e.files) = ToSet(t.call.files) \cup Scheduled(t.call, t.t0, Len(e.digs)) \cup {FinalFile(t.call)})
         \cup Cl("C11.no-unasked-files", t.call.every = 0 => e.files = t.call.files)
         \cup Cl("C11.same-length", e.tot = t.reftot => Len(e.digs) = Len(t.ref))
         \cup Cl("C11.same-evidence", (t.clean /\ e.tot = t.reftot) => e.logz = t.reflogz /\ e.err = t.referr)
    [] e.ev = "crashed" -> Cl("C11.file-schedule", ToSet(e.files) \subseteq ToSet(t.call.files) \cup Scheduled(t.call, t.t0, Len(t.ref) + 1))
    [] e.ev = "read" -> HistoryBad(t, e) \cup Cl("C05.results-current", Len(e.digs) = t.n)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}

After(t, e) ==
  CASE e.ev = "problem" -> [Start EXCEPT !.batches = e.batches, !.nact = e.nact, !.nev = e.nev]
    [] e.ev = "ref" -> [t EXCEPT !.ref = e.digs, !.refcalls = e.calls, !.reflogz = e.logz, !.referr = e.err, !.reftot = e.tot]
    [] e.ev = "new" -> [t EXCEPT !.n = 0, !.clean = TRUE, !.hadprior = FALSE]
    [] e.ev = "load" -> [t EXCEPT !.n = t.files[e.path].n, !.clean = t.files[e.path].clean, !.hadprior = e.hadprior]
    [] e.ev = "call" -> [t EXCEPT !.call = e, !.t0 = t.n]
    [] e.ev = "saved" -> [t EXCEPT !.files = Put(t.files, e.path, [n |-> e.n, clean |-> t.clean /\ (t.nev = 0 \/ e.manual \/ e.path # FinalFile(t.call))])]
    [] e.ev = "done" -> [t EXCEPT !.n = Len(e.digs), !.clean = @ /\ t.nev = 0]
    [] OTHER -> t

Init == l = 0 /\ s = Start
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET e == T[l + 1] IN
           /\ LET bad == Judge(s, e) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
           /\ s' = After(s, e)
        /\ l' = l + 1
=============================================================================
