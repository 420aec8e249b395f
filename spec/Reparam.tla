------------------------------ MODULE Reparam -------------------------------
(* The reparameterisation: per-parameter map chosen by the parameter's own  *)
(* bounds, optional affine standardisation learnt from data.                *)
EXTENDS Floats, Clause, Fold

RB(b) == CASE FIsFin(b[1]) /\ FIsFin(b[2]) -> "both"
           [] FIsFin(b[1]) -> "left"
           [] FIsFin(b[2]) -> "right"
           [] OTHER -> "none"
HalfLog2Pi == FMul(FDec("0.5"), FLog(FMul(FInt(2), FDec("3.141592653589793"))))
Softplus(v) == FAdd(FMax(v, F0), FLog1p(FExp(FNeg(FAbs(v)))))
Width(b) == FSub(b[2], b[1])
\* fraction of the interval reached by latent v
Frac(tr, v) == IF tr = "logit" THEN FExp(FNeg(Softplus(FNeg(v)))) ELSE NormCdf(v)
\* latent -> parameter, and log |dx/dv|
Inv1(tr, b, v) == CASE RB(b) = "none" -> v
                    [] RB(b) = "left" -> FAdd(b[1], FExp(v))
                    [] RB(b) = "right" -> FSub(b[2], FExp(v))
                    [] OTHER -> FAdd(b[1], FMul(Frac(tr, v), Width(b)))
LJ1(tr, b, v) == CASE RB(b) = "none" -> F0
                   [] RB(b) \in {"left", "right"} -> v
                   [] tr = "logit" -> FSub(FLog(Width(b)), FAdd(Softplus(v), Softplus(FNeg(v))))
                   [] OTHER -> FSub(FLog(Width(b)), FAdd(FMul(FDec("0.5"), FMul(v, v)), HalfLog2Pi))
\* parameter -> latent
Fwd1(tr, b, x) == CASE RB(b) = "none" -> x
                    [] RB(b) = "left" -> FLog(FSub(x, b[1]))
                    [] RB(b) = "right" -> FLog(FSub(b[2], x))
                    [] OTHER -> LET p == FDiv(FSub(x, b[1]), Width(b)) IN
                                IF tr = "logit" THEN FLog(FDiv(p, FSub(F1, p))) ELSE FNormInv(p)
Inv(tr, bs, v) == [i \in 1..Len(bs) |-> Inv1(tr, bs[i], v[i])]
Fwd(tr, bs, x) == [i \in 1..Len(bs) |-> Fwd1(tr, bs[i], x[i])]
LJ(tr, bs, v) == VSum([i \in 1..Len(bs) |-> LJ1(tr, bs[i], v[i])])
InB(bs, x) == \A i \in 1..Len(bs) : FLe(bs[i][1], x[i]) /\ FLe(x[i], bs[i][2])

Scale1(b, x) == IF RB(b) = "both" THEN Width(b) ELSE FMax(F1, FAbs(x))
TolX(bs, x, y, t) == Len(x) = Len(bs) /\ Len(y) = Len(bs) /\ \A i \in 1..Len(bs) :
   FLe(FAbs(FSub(x[i], y[i])), FMul(t, FMax(FMax(FAbs(x[i]), F1), Scale1(bs[i], x[i])))) \/ x[i] = y[i]

(* -- without scaling: the maps themselves, tails included ---------------- *)
RawBad(e) ==
  LET N == Len(e.u)  bs == e.bounds  tr == e.tr IN
  Cl("C15.inverse-map", \A k \in 1..N : TolX(bs, e.x[k], Inv(tr, bs, e.u[k]), FDec("1e-12")))
  \cup Cl("C15.log-jacobian", \A k \in 1..N : FClose(e.ld[k], LJ(tr, bs, e.u[k]), e.tol, e.tol))   \* shared (low, high) pairs are kept in single precision
  \cup Cl("C15.in-bounds", \A k \in 1..N : InB(bs, e.x[k]))
\* forward: the latent value whose image is the point
RawFwdBad(e) ==
  LET N == Len(e.x)  bs == e.bounds  tr == e.tr IN
  Cl("C15.forward-map", \A k \in 1..N : VAllFin(e.u[k]) /\ TolX(bs, e.x[k], Inv(tr, bs, e.u[k]), FDec("1e-12")))
  \cup Cl("C15.round-trip", \A k \in 1..N : TolX(bs, e.x[k], e.x2[k], FDec("1e-11")) /\ InB(bs, e.x2[k]))

(* -- fitted: affine standardisation of the latent training data ---------- *)
FitBad(e) ==
  LET n == Len(e.X)  d == Len(e.bounds)
      ones == VConst(F1, n)
      V == [k \in 1..n |-> Fwd(e.tr, e.bounds, e.X[k])]
      mV == MWMean(V, ones)
      mU == MWMean(e.U, ones)
      S == MScatter(e.U, ones, mU)
      \* least-squares matrix A of V - mV = A U (U is centred)
      C == [i \in 1..d |-> [j \in 1..d |-> VSum([k \in 1..n |-> FMul(FSub(V[k][i], mV[i]), e.U[k][j])])]]
      A == MMul(C, MInv(S))
      lo == FInt(n - 1)  hi == FInt(n)
      slack == FDec("1e-6")
      unit(v) == FLe(FSub(lo, FMul(slack, lo)), v) /\ FLe(v, FMul(hi, FAdd(FRat(n, n - 1), slack)))
      ldA == MLogAbsDet(A)
      N == Len(e.u)
      W == [k \in 1..N |-> VAdd(mV, MVec(A, e.u[k]))]     \* latent images of the test points
  IN Cl("C15.zero-mean", VClose(mU, VConst(F0, d), F0, FDec("1e-6")))
     \cup Cl("C15.unit-variance", \A i \in 1..d : unit(S[i][i]))
     \cup Cl("C15.identity-covariance", e.diag \/ \A i, j \in 1..d : i = j \/ FLe(FAbs(S[i][j]), FMul(FDec("1e-6"), hi)))
     \cup Cl("C15.diagonal-scaling", ~e.diag \/ \A i, j \in 1..d : i = j \/ FLe(FAbs(A[i][j]), FMul(FDec("1e-6"), FMax(F1, FAbs(A[i][i])))))
     \cup Cl("C15.affine", \A k \in 1..n : \A i \in 1..d :
              FLe(FAbs(FSub(FSub(V[k][i], mV[i]), VDot(A[i], e.U[k]))), FMul(FDec("1e-6"), FMax(F1, FAbs(V[k][i])))))
     \cup Cl("C15.inverse-map", \A k \in 1..N : TolX(e.bounds, e.x[k], Inv(e.tr, e.bounds, W[k]), FDec("1e-6")))
     \cup Cl("C15.log-jacobian", \A k \in 1..N : FClose(e.ld[k], FAdd(LJ(e.tr, e.bounds, W[k]), ldA), FDec("1e-6"), FDec("1e-5")))
     \cup Cl("C15.in-bounds", \A k \in 1..N : InB(e.bounds, e.x[k]))
     \cup Cl("C15.round-trip", \A k \in 1..N : ~e.mod[k] \/ VClose(e.u[k], e.u2[k], FDec("1e-7"), FDec("1e-7")))
     \cup Cl("C15.round-trip", \A k \in 1..n : TolX(e.bounds, e.X[k], e.X2[k], FDec("1e-10")))
     \* the reported log-determinant is that of the numerical derivative of the inverse map itself
     \cup Cl("C15.log-jacobian", \A q \in 1..Len(e.fd) :
              LET J == [i \in 1..d |-> [j \in 1..d |-> FDiv(FSub(e.fd[q].p[j][i], e.fd[q].m[j][i]), FMul(FInt(2), e.h))]] IN
              FClose(MLogAbsDet(J), e.ld[e.fd[q].k], FDec("1e-4"), FDec("1e-4")))

EdgeBad(e) ==
  Cl("C15.edge-finite", \A k \in 1..Len(e.x) : VAllFin(e.u[k]))
  \cup Cl("C15.edge-returns", \A k \in 1..Len(e.x) : TolX(e.bounds, e.x[k], e.x2[k], FDec("1e-10")) /\ InB(e.bounds, e.x2[k]))

(* -- boundary conditions -------------------------------------------------- *)
KindOf(e, j) == IF j - 1 \in {e.periodic[i] : i \in 1..Len(e.periodic)} THEN "periodic"
                ELSE IF j - 1 \in {e.reflective[i] : i \in 1..Len(e.reflective)} THEN "reflective" ELSE "none"
\* lattice points, exact (halves of the unit are used on the real code: doubles represent them exactly)
BcLatticeBad(e) ==
  Cl("C15.boundary-exact", \A k \in 1..Len(e.x) : \A j \in 1..Len(e.lo) :
       e.y[k][j] \in Folded(KindOf(e, j), e.lo[j], e.hi[j], e.x[k][j]))
  \cup Cl("C15.boundary-only-listed", \A k \in 1..Len(e.x) : \A j \in 1..Len(e.lo) : KindOf(e, j) # "none" \/ e.y[k][j] = e.x[k][j])
  \cup Cl("C15.boundary-pure", e.after = e.x)
\* arbitrary doubles
NearInt(v, t) == FLe(FAbs(FSub(v, FInt(FFloor(FAdd(v, FDec("0.5")))))), t)
BcBad(e) ==
  LET w(j) == Width(e.bounds[j])
      near(k, j) == LET v == e.x[k][j]  y == e.y[k][j]
                        t == FAdd(FDec("1e-9"), FMul(FDec("1e-14"), FDiv(FAdd(FAbs(v), FAbs(e.bounds[j][1])), w(j)))) IN
         CASE KindOf(e, j) = "none" -> y = v
           [] FLe(e.bounds[j][1], v) /\ FLe(v, e.bounds[j][2]) -> FEq(y, v)
           [] FLt(FDec("1e-3"), t) -> TRUE
           [] KindOf(e, j) = "periodic" -> NearInt(FDiv(FSub(y, v), w(j)), t)
           [] OTHER -> \/ NearInt(FDiv(FSub(y, v), FMul(FInt(2), w(j))), t)
                       \/ NearInt(FDiv(FSub(FAdd(y, v), FMul(FInt(2), e.bounds[j][1])), FMul(FInt(2), w(j))), t)
  IN Cl("C15.boundary-in-bounds", \A k \in 1..Len(e.x) : \A j \in 1..Len(e.bounds) :
          KindOf(e, j) = "none" \/ (FLe(e.bounds[j][1], e.y[k][j]) /\ FLe(e.y[k][j], e.bounds[j][2])))
     \cup Cl("C15.boundary-image", \A k \in 1..Len(e.x) : \A j \in 1..Len(e.bounds) : near(k, j))
     \cup Cl("C15.boundary-pure", e.after = e.x)

RefuseBad(e) == Cl("C15.refuse-outside", e.raised = e.outside)
=============================================================================
