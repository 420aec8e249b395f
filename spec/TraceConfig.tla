----------------------------- MODULE TraceConfig -----------------------------
EXTENDS Config, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(e) ==
  CASE e.ev = "built" -> BuiltBad(e.c, e)
    [] e.ev = "attrs" -> AttrBad(e.c, e)
    [] e.ev = "ran" -> RanBad(e.c, e)
    [] e.ev = "train" -> TrainBad(e.c, e)
    [] e.ev = "options" -> OptionsBad(e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
Init == l = 0
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET bad == Judge(T[l + 1]) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
        /\ l' = l + 1
=============================================================================
