--------------------------- MODULE TraceCheckpoint ---------------------------
EXTENDS Checkpoint, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(e) ==
  CASE e.ev = "save" -> SaveBad(e)
    [] e.ev = "cut" -> CutBad(e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
Init == l = 0
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET bad == Judge(T[l + 1]) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
        /\ l' = l + 1
=============================================================================
