------------------------------ MODULE Geometry ------------------------------
(* Proposal geometry: Gaussian and Student-t summaries of a weighted sample *)
EXTENDS Floats, Clause

Wsum(w) == VSum(w)
\* weighted sample covariance with reliability weights
GaussCov(X, w, m) == LET W == VSum(w)  f == FSub(W, FDiv(VDot(w, w), W))  S == MScatter(X, w, m)
                     IN [i \in 1..Len(m) |-> VScale(FDiv(F1, f), S[i])]
Spread(X) == LET m == MWMean(X, VConst(F1, Len(X)))  S == MScatter(X, VConst(F1, Len(X)), m)
             IN [i \in 1..Len(m) |-> FSqrt(FDiv(S[i][i], FInt(Len(X))))]
\* entrywise comparison on the scale of the data
MNear(a, b, sd, t) == Len(a) = Len(sd) /\ \A i \in 1..Len(sd) : Len(a[i]) = Len(sd) /\ \A j \in 1..Len(sd) :
                         FLe(FAbs(FSub(a[i][j], b[i][j])), FMul(t, FMul(sd[i], sd[j])))
VNearS(a, b, sd, mag, t) == Len(a) = Len(sd) /\ \A i \in 1..Len(sd) : FLe(FAbs(FSub(a[i], b[i])), FMul(t, FAdd(sd[i], mag[i])))
Mag(X) == [i \in 1..Len(X[1]) |-> VMax([k \in 1..Len(X) |-> FMul(FAbs(X[k][i]), FDec("1e-8"))])]

GaussBad(e) ==
  LET sd == Spread(e.X)  m == MWMean(e.X, e.w) IN
  IF e.shape # <<e.d, e.d>> \/ Len(e.nm) # e.d THEN {"C21.normal-shape"} ELSE
  Cl("C21.normal-mean", VNearS(e.nm, m, sd, Mag(e.X), FDec("1e-6")))
  \cup Cl("C21.normal-cov", MNear(e.nc, GaussCov(e.X, e.w, m), sd, FDec("1e-6")))

\* Cholesky factorisation exists: positive definite
RECURSIVE PD(_)
PD(S) == LET n == Len(S) IN
  /\ FLt(F0, S[1][1])
  /\ n = 1 \/ PD([i \in 1..n - 1 |-> [j \in 1..n - 1 |-> FSub(S[i + 1][j + 1], FDiv(FMul(S[i + 1][1], S[1][j + 1]), S[1][1]))]])
StudentShapeBad(e) ==
  IF e.tshape # <<e.d, e.d>> \/ Len(e.tm) # e.d THEN {"C21.t-shape"} ELSE
  Cl("C21.t-finite", VAllFin(e.tm) /\ (\A i \in 1..e.d : VAllFin(e.tc[i])) /\ FIsFin(e.nu) /\ FLt(F0, e.nu))
  \cup Cl("C21.t-symmetric", \A i, j \in 1..e.d : FClose(e.tc[i][j], e.tc[j][i], FDec("1e-9"), FMul(FDec("1e-9"), FSqrt(FAbs(FMul(e.tc[i][i], e.tc[j][j]))))))
  \cup Cl("C21.t-positive-definite", (\A i \in 1..e.d : VAllFin(e.tc[i])) => PD(e.tc))
  \cup Cl("C21.t-location-in-range", \A i \in 1..e.d : LET c == MCol(e.X, i) IN FLe(VMin(c), e.tm[i]) /\ FLe(e.tm[i], VMax(c)))

Median(v) == LET o == VSort(v)  n == Len(v) IN
             IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE FMul(FDec("0.5"), FAdd(o[n \div 2], o[(n \div 2) + 1]))
\* the estimate the EM iteration starts from
StartScale(D) == LET n == Len(D)  m == MWMean(D, VConst(F1, n))  S == MScatter(D, VConst(F1, n), m) IN
   [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> FMul(FDiv(S[i][j], FInt(n)), IF i = j THEN FRat(n + 1, n) ELSE F1)]]
\* D: the data the t-distribution is fitted to (the resampled multiset)
StudentFixedBad(e, D) ==
  LET n == Len(D)  d == e.d  sd == Spread(D)
      dl == VMaha(D, e.tm, MInv(e.tc))
      w == [k \in 1..n |-> FDiv(FAdd(e.nu, FInt(d)), FAdd(e.nu, dl[k]))]
      S == MScatter(D, w, e.tm)
      fixed == /\ VNearS(e.tm, MWMean(D, w), sd, Mag(D), FDec("2e-3"))
               /\ MNear(e.tc, [i \in 1..d |-> VScale(FRat(1, n), S[i])], sd, FDec("5e-3"))
      start == /\ VNearS(e.tm, [i \in 1..d |-> Median(MCol(D, i))], sd, Mag(D), FDec("1e-6"))
               /\ MNear(e.tc, StartScale(D), sd, FDec("1e-6"))
               /\ FLe(FInt(1000000), e.nu)
  IN IF fixed THEN {} ELSE IF start THEN {"C21.t-never-fitted"} ELSE {"C21.t-fixed-point"}

\* the same sample in other units: X' = t + c X, column by column
EquivBad(e) ==
  LET sd == Spread(e.X)
      map(v) == [i \in 1..e.d |-> FAdd(e.t[i], FMul(e.c[i], v[i]))]
      mapM(M) == [i \in 1..e.d |-> [j \in 1..e.d |-> FMul(FMul(e.c[i], e.c[j]), M[i][j])]]
      sd2 == [i \in 1..e.d |-> FMul(FAbs(e.c[i]), sd[i])]
      mg == [i \in 1..e.d |-> FMul(FDec("1e-6"), FAdd(FAbs(e.t[i]), FMul(FAbs(e.c[i]), FAdd(FAbs(e.a.tm[i]), F1))))]
  IN Cl("C21.equivariant-normal", VNearS(e.b.nm, map(e.a.nm), sd2, mg, FDec("1e-5")) /\ MNear(e.b.nc, mapM(e.a.nc), sd2, FDec("1e-4")))
     \cup Cl("C21.equivariant-t", VNearS(e.b.tm, map(e.a.tm), sd2, mg, FDec("1e-5")) /\ MNear(e.b.tc, mapM(e.a.tc), sd2, FDec("1e-4"))
             /\ FClose(e.a.nu, e.b.nu, FDec("1e-2"), F0))

GeoBad(e) == GaussBad(e) \cup
             (LET s == StudentShapeBad(e) IN IF s # {} \/ ~e.exact THEN s ELSE StudentFixedBad(e, e.D))
             \cup Cl("C21.pure", e.pure)
=============================================================================
