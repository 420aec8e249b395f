------------------------------ MODULE TracePMC ------------------------------
(* Judges recorded runs of the real sampler, line by line.                  *)
EXTENDS PMC, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, s
Conf == INSTANCE Config

Judge(c, t, e) ==
  CASE e.ev = "cfg" -> {}
    [] e.ev = "start" -> Cl("C05.counter-at-start", e.tattr \in {-1, N(t)})
    [] e.ev = "iter" -> IF t.warm > 0 THEN WarmBad(c, t, e) ELSE IterBad(c, t, e)
    [] e.ev = "is" -> IsBad(c, e)
    [] e.ev = "trained" -> Cl("C20.train-schedule", e.trained = Conf!TrainDue(c, e.k, e.first, e.one))
    [] e.ev = "geom" -> GeomBad(c, t, e)
    [] e.ev = "evals" -> EvalsBad(c, e)
    [] e.ev = "fault" -> FaultBad(c, t, e)
    [] e.ev = "done" -> DoneBad(c, t, e)
    [] e.ev = "post" -> PostBad(c, t, e)
    [] e.ev = "postcount" -> PostCountBad(c, t, e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
After(c, t, e) ==
  CASE e.ev = "cfg" -> NewRun(e)
    [] e.ev = "start" -> [t EXCEPT !.nTotal = e.ntotal]
    [] e.ev = "iter" -> IF t.warm > 0 THEN Push(t, e) ELSE IterNext(c, t, e)
    [] e.ev = "fault" -> [t EXCEPT !.faulted = TRUE]
    [] e.ev = "done" -> [t EXCEPT !.evals = e.evals]
    [] OTHER -> t

Init == l = 0 /\ cfg = [ev |-> "none"] /\ s = [L |-> <<>>, faulted |-> FALSE]
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET e == T[l + 1] IN
           /\ LET own == Judge(cfg, s, e)
                  bad == own \cup IF l > 0 /\ e.ev # "cfg" /\ s.faulted /\ own # {} THEN {"C23.continues"} ELSE {} IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
           /\ cfg' = IF e.ev = "cfg" THEN e ELSE cfg
           /\ s' = After(cfg, s, e)
        /\ l' = l + 1
=============================================================================
