---------------------------- MODULE TraceReparam ----------------------------
EXTENDS Reparam, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(e) ==
  CASE e.ev = "raw" -> RawBad(e)
    [] e.ev = "rawfwd" -> RawFwdBad(e)
    [] e.ev = "fit" -> FitBad(e)
    [] e.ev = "edge" -> EdgeBad(e)
    [] e.ev = "bclat" -> BcLatticeBad(e)
    [] e.ev = "bc" -> BcBad(e)
    [] e.ev = "refuse" -> RefuseBad(e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
Init == l = 0
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET bad == Judge(T[l + 1]) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
        /\ l' = l + 1
=============================================================================
