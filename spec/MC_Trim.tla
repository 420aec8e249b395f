------------------------------ MODULE MC_Trim -------------------------------
(* Design check: the grid scan of Trim.tla satisfies every clause of the    *)
(* property for every small integer weight vector.                          *)
EXTENDS Trim, TLC
CONSTANTS MaxN, MaxW, Opts
VARIABLES w, opt, i, done

Vecs == UNION {[1..n -> 0..MaxW] : n \in 1..MaxN}
FW == [k \in 1..Len(w) |-> FInt(w[k])]
EssOf(o) == FRat(o[2], 100)
Init == /\ w \in {v \in Vecs : \E k \in DOMAIN v : v[k] > 0}
        /\ opt \in Opts
        /\ i = opt[1] - 1
        /\ done = FALSE
Kept(j) == LET d == Desc(FW)
               r == FCeil(Position(Len(w), opt[1], j))
           IN VCountGe(d, d[IF Len(w) - r < 1 THEN 1 ELSE Len(w) - r])
Enough(k) == LET d == Desc(FW) IN FLe(EssOf(opt), Ratio(VCum(d), VCum(VMul(d, d)), k, Len(w)))
Scan == /\ ~done /\ i > 0 /\ ~Enough(Kept(i))
        /\ i' = i - 1 /\ UNCHANGED <<w, opt, done>>
Stop == /\ ~done /\ (i = 0 \/ Enough(Kept(i)))
        /\ done' = TRUE /\ UNCHANGED <<w, opt, i>>
Next == Scan \/ Stop
Spec == Init /\ [][Next]_<<w, opt, i, done>> /\ WF_<<w, opt, i, done>>(Next)

Result == LET d == Desc(FW)
              mn == d[Kept(i)]
              ids == SelectSeq([k \in 1..Len(w) |-> k], LAMBDA k : FLe(mn, FW[k]))
              kept == VPick(FW, ids)
          IN [ids |-> ids, wk |-> VScale(FDiv(F1, VSum(kept)), kept)]
Correct == done => TrimBad("C09.", FW, EssOf(opt), opt[1], Result.ids, Result.wk) = {}
RefAgrees == done => TrimRef(FW, EssOf(opt), opt[1]).ids = Result.ids
MCOpts == {<<1, 50>>, <<3, 75>>, <<5, 100>>, <<7, 99>>}
Terminates == <>done
=============================================================================
