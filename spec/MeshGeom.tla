----------------------------- MODULE MeshGeom -----------------------------
(***************************************************************************)
(* The abstract mesh: [V |-> sequence of points, F |-> sequence of faces]. *)
(* A face is <<a,b,c,d>> of 0-based vertex ids; a triangle repeats its     *)
(* first corner at the end.  Everything a mesh reports is defined here as  *)
(* a function of V and F alone (this is what "derived" means).             *)
(* A quadrangle a,b,c,d is the union of the triangles a,b,c and a,c,d.     *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, FiniteSetsExt

IsTri(f) == f[1] = f[4]
NC(f) == IF IsTri(f) THEN 3 ELSE 4
Pt(V, i) == V[i + 1]
Corners(f) == IF IsTri(f) THEN <<f[1], f[2], f[3]>> ELSE f
Rev(f) == <<f[4], f[3], f[2], f[1]>>

\* a face as one or two triangles of points
Tris(V, f) == IF IsTri(f) THEN << <<Pt(V,f[1]), Pt(V,f[2]), Pt(V,f[3])>> >>
              ELSE << <<Pt(V,f[1]), Pt(V,f[2]), Pt(V,f[3])>>, <<Pt(V,f[1]), Pt(V,f[3]), Pt(V,f[4])>> >>
TriCross(t) == Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))       \* 2 * area * normal
TriArea(t) == FDivI(Norm(TriCross(t)), 2)
TriCen(t) == VDivI(VAdd(t[1], VAdd(t[2], t[3])), 3)

FaceArea(V, f) == LET ts == Tris(V, f) IN
   IF Len(ts) = 1 THEN TriArea(ts[1]) ELSE FAdd(TriArea(ts[1]), TriArea(ts[2]))
\* direction of the normal: for a quadrangle, the cross product of its diagonals
FaceDir(V, f) == IF IsTri(f) THEN TriCross(Tris(V, f)[1])
   ELSE Cross(VSub(Pt(V,f[3]), Pt(V,f[1])), VSub(Pt(V,f[4]), Pt(V,f[2])))
FaceNormal(V, f) == Unit(FaceDir(V, f))
FaceCenter(V, f) == LET ts == Tris(V, f) IN
   IF Len(ts) = 1 THEN TriCen(ts[1])
   ELSE LET a1 == TriArea(ts[1]) a2 == TriArea(ts[2])
        IN VDiv(VAdd(VScale(a1, TriCen(ts[1])), VScale(a2, TriCen(ts[2]))), FAdd(a1, a2))

TriIds(F)  == {i - 1 : i \in {j \in 1..Len(F) : IsTri(F[j])}}
QuadIds(F) == {i - 1 : i \in {j \in 1..Len(F) : ~IsTri(F[j])}}

(* surface integrals of monomials over a triangle, exact:                   *)
(*   int x = A/3 Sx ;  int xy = A/12 (Sx Sy + Sxy) ;                        *)
(*   int xyz = A/60 (SxSySz + Sx Syz + Sy Sxz + Sz Sxy + 2 Sxyz)            *)
S1(t, a) == FAdd(t[1][a], FAdd(t[2][a], t[3][a]))
S2(t, a, b) == FAdd(FMul(t[1][a], t[1][b]), FAdd(FMul(t[2][a], t[2][b]), FMul(t[3][a], t[3][b])))
S3(t, a, b, c) == FAdd(FMul(FMul(t[1][a], t[1][b]), t[1][c]),
                  FAdd(FMul(FMul(t[2][a], t[2][b]), t[2][c]), FMul(FMul(t[3][a], t[3][b]), t[3][c])))
Int1(t, A, a) == FDivI(FMul(A, S1(t, a)), 3)
Int2(t, A, a, b) == FDivI(FMul(A, FAdd(FMul(S1(t,a), S1(t,b)), S2(t,a,b))), 12)
Int3(t, A, a, b, c) == FDivI(FMul(A,
     FAdd(FMul(S1(t,a), FMul(S1(t,b), S1(t,c))),
     FAdd(FMul(S1(t,a), S2(t,b,c)), FAdd(FMul(S1(t,b), S2(t,a,c)),
     FAdd(FMul(S1(t,c), S2(t,a,b)), FMulI(S3(t,a,b,c), 2)))))), 60)
\* order of the 15 integrals a mesh reports
TriIntegrals(t) == LET A == TriArea(t)
                      A3 == FDivI(A, 3)  A12 == FDivI(A, 12)  A60 == FDivI(A, 60)
                      x == S1(t,1) y == S1(t,2) z == S1(t,3)
                      xx == S2(t,1,1) yy == S2(t,2,2) zz == S2(t,3,3)
                      xy == S2(t,1,2) xz == S2(t,1,3) yz == S2(t,2,3)
                      I2(u, v, uv) == FMul(A12, FAdd(FMul(u, v), uv))
                      \* int u u v
                      I3(u, v, uu, uv, uuv) == FMul(A60, FAdd(FMul(FAdd(FMul(u, u), uu), v),
                                                  FMulI(FAdd(FMul(u, uv), uuv), 2)))
   IN << FMul(A3, x), FMul(A3, y), FMul(A3, z),
         I2(y, z, yz), I2(x, z, xz), I2(x, y, xy), I2(x, x, xx), I2(y, y, yy), I2(z, z, zz),
         I3(x, x, xx, xx, S3(t,1,1,1)), I3(y, y, yy, yy, S3(t,2,2,2)), I3(z, z, zz, zz, S3(t,3,3,3)),
         I3(x, y, xx, xy, S3(t,1,1,2)), I3(y, z, yy, yz, S3(t,2,2,3)), I3(z, x, zz, xz, S3(t,3,3,1)) >>
IntegralDegree == <<1,1,1,2,2,2,2,2,2,3,3,3,3,3,3>>
FaceIntegrals(V, f) == LET ts == Tris(V, f) IN
   IF Len(ts) = 1 THEN TriIntegrals(ts[1])
   ELSE LET i1 == TriIntegrals(ts[1]) i2 == TriIntegrals(ts[2]) IN [k \in 1..15 |-> FAdd(i1[k], i2[k])]

\* largest coordinate magnitude (at least 1e-9), the length scale of tolerances
Scale(V) == FoldLeft(LAMBDA acc, p : FMax(acc, VMaxAbs(p)), Tiny(9), V)
\* extent of the used geometry
BBox(V) == << FMinSeq([i \in 1..Len(V) |-> V[i][1]]), FMaxSeq([i \in 1..Len(V) |-> V[i][1]]),
              FMinSeq([i \in 1..Len(V) |-> V[i][2]]), FMaxSeq([i \in 1..Len(V) |-> V[i][2]]),
              FMinSeq([i \in 1..Len(V) |-> V[i][3]]), FMaxSeq([i \in 1..Len(V) |-> V[i][3]]) >>

TotalArea(V, F) == FSumSeq([i \in 1..Len(F) |-> FaceArea(V, F[i])])

(* volume integrals by tetrahedra from the origin: exact for a closed       *)
(* surface of triangles.  For a tetrahedron 0,p,q,r with d = det(p,q,r):    *)
(*  vol = d/6 ; int x = d/24 Sx ; int xy = d/120 (Sx Sy + Sxy)              *)
TetDet(t) == Dot(t[1], Cross(t[2], t[3]))
AllTris(V, F) == FlattenSeq([i \in 1..Len(F) |-> Tris(V, F[i])])
Volume(V, F) == LET ts == TLCEval(AllTris(V, F))
                IN FDivI(FSumSeq([i \in 1..Len(ts) |-> TetDet(ts[i])]), 6)
VolMoment1(ts) == <<FDivI(FSumSeq([i \in 1..Len(ts) |-> FMul(TetDet(ts[i]), S1(ts[i],1))]), 24),
                    FDivI(FSumSeq([i \in 1..Len(ts) |-> FMul(TetDet(ts[i]), S1(ts[i],2))]), 24),
                    FDivI(FSumSeq([i \in 1..Len(ts) |-> FMul(TetDet(ts[i]), S1(ts[i],3))]), 24)>>
VolM2(ts, a, b) == FDivI(FSumSeq([i \in 1..Len(ts) |->
                     FMul(TetDet(ts[i]), FAdd(FMul(S1(ts[i],a), S1(ts[i],b)), S2(ts[i],a,b)))]), 120)
\* inertia matrix of the solid (unit density) at the origin
SolidInertia(ts) == LET xx == VolM2(ts,1,1) yy == VolM2(ts,2,2) zz == VolM2(ts,3,3)
                        xy == FNeg(VolM2(ts,1,2)) xz == FNeg(VolM2(ts,1,3)) yz == FNeg(VolM2(ts,2,3))
   IN << <<FAdd(yy, zz), xy, xz>>, <<xy, FAdd(xx, zz), yz>>, <<xz, yz, FAdd(xx, yy)>> >>
\* shell (unit surface density) at the origin
ShellM1(V, F) == LET ts == TLCEval(AllTris(V, F)) IN
   [a \in 1..3 |-> FSumSeq([i \in 1..Len(ts) |-> Int1(ts[i], TriArea(ts[i]), a)])]
ShellM2(ts, a, b) == FSumSeq([i \in 1..Len(ts) |-> Int2(ts[i], TriArea(ts[i]), a, b)])
ShellInertia(ts) == LET xx == ShellM2(ts,1,1) yy == ShellM2(ts,2,2) zz == ShellM2(ts,3,3)
                        xy == FNeg(ShellM2(ts,1,2)) xz == FNeg(ShellM2(ts,1,3)) yz == FNeg(ShellM2(ts,2,3))
   IN << <<FAdd(yy, zz), xy, xz>>, <<xy, FAdd(xx, zz), yz>>, <<xz, yz, FAdd(xx, yy)>> >>

\* a face whose corners lie in one plane (relative tolerance)
PlanarFace(V, f) == IsTri(f) \/
   LET t == Tris(V, f) IN
     FLe(FAbs(Dot(VSub(t[2][3], t[1][1]), TriCross(t[1]))),
         FMul(Tiny(11), FMul(FAdd(One, FaceArea(V, f)), FAdd(One, Scale(<<Pt(V,f[1]),Pt(V,f[2]),Pt(V,f[3]),Pt(V,f[4])>>)))))
AllPlanar(V, F) == \A i \in 1..Len(F) : PlanarFace(V, F[i])
=============================================================================
