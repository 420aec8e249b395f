------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* IEEE-754 doubles for TLC.  A double is a pair <<hi, lo>> of signed      *)
(* 32-bit integers (its bit pattern), so recorded values enter the         *)
(* specification exactly.  Scalar operators are primitive (overridden by   *)
(* java/Floats.java, StrictMath); vector operators carry their definition  *)
(* as folds over the scalar ones and are overridden only for speed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Prim == CHOOSE x \in {} : TRUE

FAdd(x, y) == Prim
FSub(x, y) == Prim
FMul(x, y) == Prim
FDiv(x, y) == Prim
FNeg(x) == Prim
FAbs(x) == Prim
FExp(x) == Prim
FLog(x) == Prim
FLog1p(x) == Prim
FSqrt(x) == Prim
FPow(x, y) == Prim
FErf(x) == Prim
FAtan(x) == Prim
FBetaInc(a, b, x) == Prim   \* regularised incomplete beta function I_x(a,b)
FMin(x, y) == Prim
FMax(x, y) == Prim
FInt(n) == Prim          \* double nearest to the integer n
FRat(n, m) == Prim       \* n/m
FDec(s) == Prim          \* decimal literal, e.g. FDec("1e-6")
FStr(x) == Prim          \* for messages
FFloor(x) == Prim        \* to Int (saturating)
FCeil(x) == Prim
FTrunc(x) == Prim
FLt(x, y) == Prim
FLe(x, y) == Prim
FEq(x, y) == Prim
FIsFin(x) == Prim
FIsNaN(x) == Prim
FClose(x, y, rtol, atol) == Prim  \* equal, or finite and |x-y| <= atol + rtol*max(|x|,|y|)

F0 == FInt(0)
F1 == FInt(1)
FNegInf == FDiv(FInt(-1), FInt(0))
FPosInf == FDiv(FInt(1), FInt(0))

RECURSIVE FoldS(_, _, _)
FoldS(op(_, _), base, s) == IF s = <<>> THEN base ELSE op(s[1], FoldS(op, base, Tail(s)))
Pt(op(_, _), x, y) == [i \in 1..Len(x) |-> op(x[i], y[i])]

VForce(v) == v
VSum(v) == FoldS(FAdd, F0, v)
VMax(v) == FoldS(FMax, FNegInf, v)
VMin(v) == FoldS(FMin, FPosInf, v)
VExp(v) == [i \in 1..Len(v) |-> FExp(v[i])]
VScale(k, v) == [i \in 1..Len(v) |-> FMul(k, v[i])]
VShift(k, v) == [i \in 1..Len(v) |-> FAdd(k, v[i])]
VAdd(x, y) == Pt(FAdd, x, y)
VSub(x, y) == Pt(FSub, x, y)
VMul(x, y) == Pt(FMul, x, y)
VDot(x, y) == VSum(VMul(x, y))
VLSE(v) == LET m == VMax(v) IN FAdd(m, FLog(VSum(VExp(VShift(FNeg(m), v)))))
VClose(x, y, rt, at) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : FClose(x[i], y[i], rt, at)
VAllFin(v) == \A i \in 1..Len(v) : FIsFin(v[i])
VSort(v) == CHOOSE s \in {[i \in 1..Len(v) |-> v[p[i]]] : p \in [1..Len(v) -> 1..Len(v)]} :
              \A i \in 1..Len(v) - 1 : FLe(s[i], s[i + 1])

VLogAddExp(x, y) == [i \in 1..Len(x) |-> VLSE(<<x[i], y[i]>>)]
VUnq(v, k) == [i \in 1..Len(v) |-> FSub(F1, FPow(FSub(F1, v[i]), FInt(k)))]   \* 1 - (1 - v)^k
VCum(v) == [i \in 1..Len(v) |-> VSum(SubSeq(v, 1, i))]
VRev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
VCountGe(v, x) == Cardinality({i \in 1..Len(v) : FLe(x, v[i])})
VConst(x, n) == [i \in 1..n |-> x]
VPick(v, idx) == [i \in 1..Len(idx) |-> v[idx[i]]]
ICounts(idx, n) == [k \in 1..n |-> Cardinality({i \in 1..Len(idx) : idx[i] = k})]

MVec(m, v) == [i \in 1..Len(m) |-> VDot(m[i], v)]
MLogAbsDet(m) == Prim       \* log |det m|, Gaussian elimination with pivoting
MInv(m) == Prim             \* inverse matrix, Gauss-Jordan with pivoting
MMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> VDot(a[i], [k \in 1..Len(b) |-> b[k][j]])]]
MWMean(xs, ws) == [i \in 1..Len(xs[1]) |-> FDiv(VSum([k \in 1..Len(xs) |-> FMul(ws[k], xs[k][i])]), VSum(ws))]
MScatter(xs, ws, c) == [i \in 1..Len(c) |-> [j \in 1..Len(c) |->      \* sum_k w_k (x_k - c)(x_k - c)^T
   VSum([k \in 1..Len(xs) |-> FMul(ws[k], FMul(FSub(xs[k][i], c[i]), FSub(xs[k][j], c[j])))])]]
VMaha(xs, mu, inv) == [k \in 1..Len(xs) |-> LET z == VSub(xs[k], mu) IN VDot(z, MVec(inv, z))]
MClose(a, b, rt, at) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], rt, at)
MCol(m, j) == [i \in 1..Len(m) |-> m[i][j]]
MEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F1 ELSE F0]]
FNormInv(p) == Prim         \* standard normal quantile
FLgamma(x) == Prim
FDigamma(x) == Prim
\* Kolmogorov-Smirnov distance of a sample in [0,1] from the uniform distribution
VKS(v) == LET o == VSort(v)  n == Len(v) IN
          VMax([i \in 1..n |-> FMax(FAbs(FSub(FRat(i, n), o[i])), FAbs(FSub(o[i], FRat(i - 1, n))))])
NormCdf(z) == FMul(FDec("0.5"), FAdd(F1, FErf(FDiv(z, FSqrt(FInt(2))))))
TCdf(t, nu) == LET h == FMul(FDec("0.5"), FBetaInc(FMul(FDec("0.5"), nu), FDec("0.5"), FDiv(nu, FAdd(nu, FMul(t, t)))))
               IN IF FLt(t, F0) THEN h ELSE FSub(F1, h)
\* two-sided Dvoretzky-Kiefer-Wolfowitz-Massart bound, false-alarm probability 2 exp(-23.8) = 9e-11
KSLimit(n) == FSqrt(FDiv(FDec("11.9"), FInt(n)))
FGe(x, y) == FLe(y, x)
FGt(x, y) == FLt(y, x)
=============================================================================
