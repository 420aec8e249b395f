-------------------------------- MODULE Flow --------------------------------
(* Normalising flow: a bijection with log-Jacobian, and the density and     *)
(* sampler it induces from the standard normal base.                        *)
EXTENDS Floats, Clause

HL2P == FMul(FDec("0.5"), FLog(FMul(FInt(2), FDec("3.141592653589793"))))
BaseLogPdf(u) == FNeg(FAdd(FMul(FDec("0.5"), VDot(u, u)), FMul(FInt(Len(u)), HL2P)))
\* e.tx, e.tl: tolerances for coordinates and for log-determinants (single precision)
Near(a, b, t) == FLe(FAbs(FSub(a, b)), FMul(t, FAdd(F1, FMax(FAbs(a), FAbs(b)))))
VNr(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
AllV(e, A, B, t) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : VNr(A[k], B[k], t)
MapBad(e) ==
  Cl("C17.inverse-undoes-forward", AllV(e, e.x, e.x2, e.tx))
  \cup Cl("C17.forward-undoes-inverse", AllV(e, e.z, e.z2, e.tx))
  \cup Cl("C17.logdets-opposite", VNr(e.ld, [k \in 1..Len(e.ld) |-> FNeg(e.ld2[k])], e.tl) /\ VNr(e.zld, [k \in 1..Len(e.ld) |-> FNeg(e.zld2[k])], e.tl))
  \cup Cl("C17.logdet-is-jacobian", \A k \in 1..Len(e.J) : Near(MLogAbsDet(e.J[k]), e.ld[k], e.tl))
  \cup Cl("C17.logdet-is-jacobian-inverse", \A k \in 1..Len(e.Ji) : Near(MLogAbsDet(e.Ji[k]), e.zld[k], e.tl))
DensBad(e) ==
  Cl("C17.log-prob", \A k \in 1..Len(e.x) : Near(e.lp[k], FAdd(BaseLogPdf(e.u[k]), e.ld[k]), e.tl))
  \cup Cl("C17.sample-log-prob", Len(e.slp) = e.size /\ Len(e.s) = e.size /\
          \A k \in 1..e.size : ~e.keep[k] \/ ~(e.law \/ e.size < 500) \/ Near(e.slp[k], FAdd(BaseLogPdf(e.su[k]), e.sld[k]), e.tl))
  \cup (IF e.size < 500 \/ ~e.law THEN {} ELSE    \* the draws are base draws mapped through the inverse
        Cl("C17.sample-law", \A i \in 1..Len(e.s[1]) :
           FLe(VKS([k \in 1..e.size |-> NormCdf(e.su[k][i])]), KSLimit(e.size))))
WrapBad(e) ==
  Cl("C17.wrapper-maps", AllV(e, e.wf, e.u, e.tx) /\ AllV(e, e.wi, e.x2, e.tx))
  \cup Cl("C17.wrapper-logdet-of-inverse", VNr(e.wfl, [k \in 1..Len(e.ld) |-> FNeg(e.ld[k])], e.tl) /\ VNr(e.wil, e.ld2, e.tl))
  \cup Cl("C17.wrapper-pure", e.pure)
CastBad(e) == Cl("C17.double-input", e.same) \cup Cl("C17.single-output", e.single)
NameBad(e) == Cl("C17.names-refused", e.raised = ~e.known)
=============================================================================
