------------------------------ MODULE TraceDist ------------------------------
EXTENDS Dist, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref
Judge(e) ==
  CASE e.ev = "ref" -> SelfBad(e)
    [] e.ev = "twin" -> TwinBad(ref, e)
    [] e.ev = "flag" -> Cl(e.clause, e.ok)
    [] OTHER -> {"ANY." \o e.ev}
Init == l = 0 /\ ref = <<>>
Next == /\ l < Len(T)
        /\ PrintT(<<"AT", l>>)
        /\ LET bad == Judge(T[l + 1]) IN bad # {} => PrintT(<<"FAIL", l + 1, bad>>)
        /\ ref' = IF T[l + 1].ev = "ref" THEN T[l + 1] ELSE ref
        /\ l' = l + 1
=============================================================================
