------------------------------- MODULE Vec -------------------------------
(* Vectors <<x,y,z>> and 3x3 matrices (sequence of rows) over Fix numbers.  *)
EXTENDS Fix, SequencesExt, TLC

\* a number observed on the real code may be non finite: the harness encodes
\* nan/inf as <<2, <<>>>>, which no finite number equals
IsNum(a) == a[1] \in {-1, 0, 1}
Close(a, b, tol) == /\ IsNum(a) /\ IsNum(b) /\ FLe(FAbs(FSub(a, b)), tol)
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
One == FInt(1)
Tiny(n) == FPow10Neg(n)

FSumSeq(s)  == FoldLeft(LAMBDA acc, x : FAdd(acc, x), Zero, s)
FMaxSeq(s)  == FoldLeft(LAMBDA acc, x : FMax(acc, x), s[1], s)   \* non empty
FMinSeq(s)  == FoldLeft(LAMBDA acc, x : FMin(acc, x), s[1], s)
FSumMap(Op(_), n) == FSumSeq([i \in 1..n |-> Op(i)])

VZero == <<Zero, Zero, Zero>>
VAdd(p, q) == <<FAdd(p[1], q[1]), FAdd(p[2], q[2]), FAdd(p[3], q[3])>>
VSub(p, q) == <<FSub(p[1], q[1]), FSub(p[2], q[2]), FSub(p[3], q[3])>>
VScale(k, p) == <<FMul(k, p[1]), FMul(k, p[2]), FMul(k, p[3])>>
VNeg(p) == <<FNeg(p[1]), FNeg(p[2]), FNeg(p[3])>>
Dot(p, q) == FAdd(FMul(p[1], q[1]), FAdd(FMul(p[2], q[2]), FMul(p[3], q[3])))
Cross(p, q) == << FSub(FMul(p[2], q[3]), FMul(p[3], q[2])),
                  FSub(FMul(p[3], q[1]), FMul(p[1], q[3])),
                  FSub(FMul(p[1], q[2]), FMul(p[2], q[1])) >>
Norm2(p) == Dot(p, p)
Norm(p) == FSqrt(Norm2(p))
VDiv(p, k) == <<FDiv(p[1], k), FDiv(p[2], k), FDiv(p[3], k)>>
VDivI(p, n) == <<FDivI(p[1], n), FDivI(p[2], n), FDivI(p[3], n)>>
Unit(p) == VDiv(p, Norm(p))
VClose(p, q, tol) == Close(p[1], q[1], tol) /\ Close(p[2], q[2], tol) /\ Close(p[3], q[3], tol)
VIsNum(p) == IsNum(p[1]) /\ IsNum(p[2]) /\ IsNum(p[3])
VSumSeq(s) == FoldLeft(LAMBDA acc, x : VAdd(acc, x), VZero, s)
VMaxAbs(p) == FMax(FAbs(p[1]), FMax(FAbs(p[2]), FAbs(p[3])))

MVec(m, p) == <<Dot(m[1], p), Dot(m[2], p), Dot(m[3], p)>>
MT(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>> >>
MMul(a, b) == LET bt == MT(b) IN [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], bt[j])]]
MAdd(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3])>>
MSub(a, b) == <<VSub(a[1], b[1]), VSub(a[2], b[2]), VSub(a[3], b[3])>>
MScale(k, a) == <<VScale(k, a[1]), VScale(k, a[2]), VScale(k, a[3])>>
MClose(a, b, tol) == \A i \in 1..3 : VClose(a[i], b[i], tol)
MId == << <<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>> >>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
IsRot(m, tol) == MClose(MMul(m, MT(m)), MId, tol) /\ Close(Det(m), One, tol)
MMaxAbs(m) == FMax(VMaxAbs(m[1]), FMax(VMaxAbs(m[2]), VMaxAbs(m[3])))

RotX(t) == LET c == FCos(t) s == FSin(t) IN << <<One, Zero, Zero>>, <<Zero, c, FNeg(s)>>, <<Zero, s, c>> >>
RotY(t) == LET c == FCos(t) s == FSin(t) IN << <<c, Zero, s>>, <<Zero, One, Zero>>, <<FNeg(s), Zero, c>> >>
RotZ(t) == LET c == FCos(t) s == FSin(t) IN << <<c, FNeg(s), Zero>>, <<s, c, Zero>>, <<Zero, Zero, One>> >>
\* rotation about the unit axis u by angle t (Rodrigues)
Skew(u) == << <<Zero, FNeg(u[3]), u[2]>>, <<u[3], Zero, FNeg(u[1])>>, <<FNeg(u[2]), u[1], Zero>> >>
Outer(p, q) == << VScale(p[1], q), VScale(p[2], q), VScale(p[3], q) >>
RotAxis(u, t) == MAdd(MScale(FCos(t), MId),
                   MAdd(MScale(FSub(One, FCos(t)), Outer(u, u)), MScale(FSin(t), Skew(u))))
Huygens(d) == MSub(MScale(Norm2(d), MId), Outer(d, d))
=============================================================================
