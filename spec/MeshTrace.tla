----------------------------- MODULE MeshTrace -----------------------------
(***************************************************************************)
(* Trace validation of the Mesh class.  The state of the specification is  *)
(* a set of registers, each holding a mesh [V, F] and nothing else; an     *)
(* event of the trace is one public call on the real code, with what was   *)
(* observed.  Operations must take the register to the observed successor  *)
(* by the relation below; queries must return the value the specification  *)
(* derives from the current V and F, so any value cached by the real code  *)
(* that is stale, or any hidden state at all, shows.                       *)
(***************************************************************************)
EXTENDS MeshTopo, Clauses

Trace == JsonDeserialize(TraceFile)

VARIABLES l, reg, cov
vars == <<l, reg, cov>>

Rel(n, x) == FMul(Tiny(n), x)           \* x * 10^-n
FacesEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : A[i] = B[i]
VtxClose(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], tol)
SameBits(A, B) == A = B
IdsOK(m) == \A i \in 1..Len(m.F) : \A k \in 1..4 : m.F[i][k] \in 0..Len(m.V)-1
Finite(m) == \A i \in 1..Len(m.V) : VIsNum(m.V[i])
WellFormed(m) == IdsOK(m) /\ Finite(m)

\* corners without cyclically consecutive repetitions
NormCorners(f) == LET k == {i \in 1..4 : f[i] # f[(i % 4) + 1]}
                  IN [j \in 1..Cardinality(k) |-> f[CHOOSE i \in k : Cardinality({x \in k : x < i}) = j - 1]]
PosOf(V, c) == [i \in 1..Len(c) |-> Pt(V, c[i])]
PosClose(c, d, tol) == Len(c) = Len(d) /\ \A i \in 1..Len(c) : VClose(c[i], d[i], tol)
PosCyc(c, d, tol) == Len(c) = Len(d) /\ \E k \in 0..Len(c)-1 :
                        \A i \in 1..Len(c) : VClose(c[((i + k - 1) % Len(c)) + 1], d[i], tol)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
PosFaces(m) == TLCEval([i \in 1..Len(m.F) |-> PosOf(m.V, Corners(m.F[i]))])
\* the same faces, as bags, up to rotation of corners
\* (a quadrangle two consecutive corners of which are at one place is the triangle of the others)
Drop(p, tol) == IF Len(p) = 4 /\ \E k \in 1..4 : VClose(p[k], p[(k % 4) + 1], tol)
                THEN LET d == CHOOSE k \in 1..4 : VClose(p[k], p[(k % 4) + 1], tol) IN [j \in 1..3 |-> p[IF j < d THEN j ELSE j + 1]]
                ELSE p
BagEq(AA, BB, tol) == LET A == TLCEval([i \in 1..Len(AA) |-> Drop(AA[i], tol)])
                          B == TLCEval([i \in 1..Len(BB) |-> Drop(BB[i], tol)]) IN
  /\ Len(A) = Len(B)
  /\ \/ \A i \in 1..Len(A) : PosCyc(A[i], B[i], tol)
     \/ \A i \in 1..Len(A) :
          LET n == Cardinality({j \in 1..Len(A) : PosCyc(A[i], A[j], tol)})
          IN n = Cardinality({j \in 1..Len(B) : PosCyc(A[i], B[j], tol)})
NoTwins(V) == \A i, j \in 1..Len(V) : i < j => V[i] # V[j]
UsedIds(F) == UNION {Range(F[i]) : i \in 1..Len(F)}

(******************************* operations *******************************)
MapV(pre, Op(_)) == [i \in 1..Len(pre.V) |-> Op(pre.V[i])]
AffTol(pre, post) == Rel(11, FAdd(Scale(pre.V), Scale(post.V)))
AffCl(pre, post, exp, extra) ==
   Cl("vertices-moved-by-map", VtxClose(exp, post.V, FAdd(AffTol(pre, post), extra)))
SameF(pre, post) == Cl("faces-kept", FacesEq(pre.F, post.F))
FlipF(pre, post) == Cl("faces-reversed", Len(pre.F) = Len(post.F) /\
                       \A i \in 1..Len(pre.F) : Flipped(pre.F[i], post.F[i]))
KeepV(pre, post) == Cl("vertices-kept", pre.V = post.V)

ScaleBy(p, k) == <<FMul(p[1], k[1]), FMul(p[2], k[2]), FMul(p[3], k[3])>>
Reflect(p, n, c) == VSub(p, VScale(FMulI(FSub(Dot(p, n), c), 2), n))

\* merging: pre vertices -> post vertices
MergeCl(pre, post, atol) ==
   LET t == FAdd(atol, Rel(9, atol))
   IN Cl("merge-faces-kept-in-order", Len(pre.F) = Len(post.F))
      \o ClIf("merge-corners-within-tolerance", Len(pre.F) = Len(post.F),
            \A i \in 1..Len(pre.F) : \A k \in 1..4 : VClose(Pt(pre.V, pre.F[i][k]), Pt(post.V, post.F[i][k]), t))
      \o Cl("merge-identical-vertices-become-one", NoTwins(post.V))
      \o Cl("merge-vertices-come-from-the-mesh", \A j \in 1..Len(post.V) : post.V[j] \in Range(pre.V))
MapCl(pre, post, atol, ids) ==
   LET n == Len(pre.V)
       t == FAdd(atol, Rel(9, atol))
       okmap == Len(ids) = n /\ \A i \in 1..n : ids[i] \in 0..Len(post.V)-1
       cl(i, j, a) == FLe(FAbs(FSub(pre.V[i][a], pre.V[j][a])), t)
       far(i, j, a) == FLt(FMulI(t, 2), FAbs(FSub(pre.V[i][a], pre.V[j][a])))
       \* within the tolerance whatever the rounding: clearly, or exactly at it with numbers that are represented exactly
       ncl(i, j, a) == LET d == FAbs(FSub(pre.V[i][a], pre.V[j][a]))
                       IN FLe(d, FSub(atol, Rel(9, atol))) \/ (d = atol /\ FLe(Tiny(6), atol))
       separated == \A a \in 1..3 :
                       /\ \A i, j \in 1..n : i < j => (ncl(i, j, a) \/ far(i, j, a))
                       /\ \A i, j, k \in 1..n : (ncl(i, j, a) /\ ncl(j, k, a)) => ncl(i, k, a)
       sep == n <= 14 /\ separated
       near(i, j) == \A a \in 1..3 : cl(i, j, a)
   IN Cl("merge-map-total", okmap)
      \o ClIf("merge-never-joins-distant", okmap, \A i, j \in 1..n : (i < j /\ ids[i] = ids[j]) => near(i, j))
      \o ClIf("merge-map-sends-vertex-near-itself", okmap, \A i \in 1..n : VClose(pre.V[i], Pt(post.V, ids[i]), t))
      \o ClIf("merge-map-onto", okmap, Range(ids) = 0..Len(post.V)-1)
      \o ClIf("merge-map-renumbers-faces", okmap,
            Len(pre.F) = Len(post.F) /\ \A i \in 1..Len(pre.F) : \A k \in 1..4 : post.F[i][k] = ids[pre.F[i][k] + 1])
      \o ClIf("merge-separated-clusters-become-one", okmap /\ sep,
            \A i, j \in 1..n : i < j => (ids[i] = ids[j] <=> near(i, j)))

HealNormalsCl(pre, post) ==
   LET n == Len(pre.F)
       same == Len(post.F) = n /\ \A i \in 1..n : SameOri(pre.F[i], post.F[i]) \/ Flipped(pre.F[i], post.F[i])
       conf == Conformal(pre.F)
   IN KeepV(pre, post)
      \o Cl("heal-normals-only-reverses", same)
      \o ClIf("heal-normals-consistent", same /\ conf /\ Orientable(pre.F), Consistent(post.F))
      \o ClIf("heal-normals-outward", same /\ conf /\ Closed(pre.F) /\ Connected(pre.F) /\ Orientable(pre.F)
                                      /\ FLt(Rel(6, FMul(Scale(pre.V), FMul(Scale(pre.V), Scale(pre.V)))),
                                             FAbs(Volume(post.V, post.F))),
            FSign(Volume(post.V, post.F)) > 0)

\* sizes so plain that no rounding can occur on the way to the threshold
Whole(a) == \A i \in 1..FracLimbs : i <= Len(a[2]) => a[2][i] = 0
Plain(m, areas, thr, rtol) ==
   /\ \A i \in 1..Len(m.V) : m.V[i][3] = Zero /\ \A c \in 1..2 : Whole(m.V[i][c]) /\ FLt(FAbs(m.V[i][c]), FInt(1024))
   /\ Len(m.F) \in {1, 2, 4, 8, 16} /\ Whole(FMulI(rtol, 1024)) /\ Whole(FMulI(thr, 4096))
DegenCl(pre, post, rtol) ==
   LET n == Len(pre.F)
       areas == TLCEval([i \in 1..n |-> FaceArea(pre.V, pre.F[i])])
       thr == FMul(FDivI(FSumSeq(areas), n), rtol)
       eps == Rel(9, FAdd(thr, Rel(3, FDivI(FSumSeq(areas), n))))
       clear == (\A i \in 1..n : FLt(eps, FAbs(FSub(areas[i], thr)))) \/ Plain(pre, areas, thr, rtol)
       keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : FLe(thr, areas[i]))
   IN KeepV(pre, post)
      \o ClIf("degenerate-exactly-removed", clear, FacesEq([k \in 1..Len(keep) |-> pre.F[keep[k]]], post.F))

HealTriCl(pre, post) ==
   KeepV(pre, post)
   \o Cl("heal-triangles-count", Len(pre.F) = Len(post.F))
   \o ClIf("heal-triangles-same-corners", Len(pre.F) = Len(post.F),
         \A i \in 1..Len(pre.F) :
            LET c == NormCorners(pre.F[i]) IN Len(c) \in {3, 4} =>
               /\ RotEq(c, NormCorners(post.F[i]))
               /\ (Len(c) = 3) = IsTri(post.F[i]))

UnusedCl(pre, post) ==
   LET used == UsedIds(pre.F)
   IN Cl("unused-faces-kept", Len(pre.F) = Len(post.F))
      \o ClIf("unused-corners-kept", Len(pre.F) = Len(post.F),
            \A i \in 1..Len(pre.F) : \A k \in 1..4 : Pt(pre.V, pre.F[i][k]) = Pt(post.V, post.F[i][k]))
      \o ClIf("unused-same-identity", Len(pre.F) = Len(post.F),
            \A i \in 1..Len(pre.F) : \A k \in 1..4 : \A j \in 1..Len(pre.F) : \A h \in 1..4 :
                 (pre.F[i][k] = pre.F[j][h]) = (post.F[i][k] = post.F[j][h]))
      \o Cl("unused-only-used-remain", UsedIds(post.F) = 0..Len(post.V)-1 /\ Cardinality(used) = Len(post.V))

HealMeshCl(pre, post, rtol) ==
   LET n == Len(pre.F)
       areas == TLCEval([i \in 1..n |-> FaceArea(pre.V, pre.F[i])])
       thr == FMul(FDivI(FSumSeq(areas), n), rtol)
       eps == Rel(9, FAdd(thr, Rel(3, FDivI(FSumSeq(areas), n))))
       clear == (\A i \in 1..n : FLt(eps, FAbs(FSub(areas[i], thr)))) \/ Plain(pre, areas, thr, rtol)
       keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : FLe(thr, areas[i]))
       t == Tiny(7)
       count == Len(keep) = Len(post.F)
       pos(i) == PosOf(pre.V, NormCorners(pre.F[keep[i]]))
       got(i) == PosOf(post.V, Corners(post.F[i]))
       conf == Conformal(post.F)
   IN ClIf("heal-mesh-keeps-the-surface", clear, count)
      \o ClIf("heal-mesh-same-corners", clear /\ count,
            \A i \in 1..Len(keep) : PosCyc(pos(i), got(i), t) \/ PosCyc(RevSeq(pos(i)), got(i), t)
                                    \/ (Len(pos(i)) = 4 /\ Len(got(i)) = 3 /\ LET p == pos(i) IN      \* two of its corners are at one place
                                          \E k \in 1..4 : LET q == [j \in 1..3 |-> p[IF j < k THEN j ELSE j + 1]] IN
                                             /\ \E j \in 1..4 : j # k /\ VClose(p[j], p[k], t)
                                             /\ (PosCyc(q, got(i), t) \/ PosCyc(RevSeq(q), got(i), t))))
      \o Cl("heal-mesh-no-coincident-vertices", NoTwins(post.V))
      \o Cl("heal-mesh-triangles-consistent",
            \A i \in 1..Len(post.F) : Cardinality(Range(post.F[i])) = 4 \/ IsTri(post.F[i]))
      \o Cl("heal-mesh-no-unused-but-of-removed-faces",
            Range(post.V) \subseteq {Pt(pre.V, v) : v \in UsedIds(pre.F)})
      \o ClIf("heal-mesh-consistent", conf /\ Orientable(post.F), Consistent(post.F))
      \o ClIf("heal-mesh-outward", conf /\ Closed(post.F) /\ Connected(post.F) /\ Orientable(post.F)
               /\ FLt(Rel(6, FMul(Scale(pre.V), FMul(Scale(pre.V), Scale(pre.V)))), FAbs(Volume(post.V, post.F))),
            FSign(Volume(post.V, post.F)) > 0)

TriangulateCl(pre, post) ==
   LET exp == FlattenSeq([i \in 1..Len(pre.F) |->
                 LET f == pre.F[i] IN IF IsTri(f) THEN << <<f[1],f[2],f[3]>> >>
                                      ELSE << <<f[1],f[2],f[3]>>, <<f[1],f[3],f[4]>> >>])
       got == [i \in 1..Len(post.F) |-> Corners(post.F[i])]
   IN KeepV(pre, post)
      \o Cl("triangulate-only-triangles", \A i \in 1..Len(post.F) : IsTri(post.F[i]))
      \o Cl("triangulate-first-diagonal", Len(exp) = Len(got) /\
            \A i \in 1..Len(exp) : Cardinality({j \in 1..Len(exp) : RotEq(exp[i], exp[j])})
                                 = Cardinality({j \in 1..Len(got) : RotEq(exp[i], got[j])}))

SymCl(pre, post, n, c) ==
   LET img == [V |-> MapV(pre, LAMBDA p : Reflect(p, n, c)), F |-> pre.F]
       A == PosFaces(pre)
       B == PosFaces(img)
       exp == A \o [i \in 1..Len(B) |-> RevSeq(B[i])]
       tol == FAdd(FMulI(Tiny(8), 2), AffTol(pre, post))
   IN Cl("symmetrize-faces-and-images", BagEq(exp, PosFaces(post), tol))
      \o Cl("symmetrize-joined", NoTwins(post.V))
      \o ClIf("symmetrize-seam-shared", \A i \in 1..Len(pre.V) : LET d == FAbs(FSub(Dot(pre.V[i], n), c)) IN FLt(d, Tiny(12)) \/ FLt(Tiny(6), d),
            Len(post.V) <= 2 * Cardinality(Range(pre.V)) - Cardinality({p \in Range(pre.V) : FLt(FAbs(FSub(Dot(p, n), c)), Tiny(12))}))

AddCl(a, b, post) ==
   LET tol == FMulI(Tiny(8), 2)
   IN Cl("add-faces-of-both", BagEq(PosFaces(a) \o PosFaces(b), PosFaces(post), tol))
      \o Cl("add-coincident-merged", NoTwins(post.V))
      \o Cl("add-no-new-vertices", Range(post.V) \subseteq (Range(a.V) \cup Range(b.V)))

ExtractCl(src, sel, post, ids) ==
   LET ok == Len(post.F) = Len(sel)
       idok == ids = << -1 >> \/ (Len(ids) = Len(post.V) /\ \A i \in 1..Len(ids) : ids[i] \in 0..Len(src.V)-1)
   IN Cl("extract-count", ok)
      \o ClIf("extract-same-faces-in-order", ok,
            \A i \in 1..Len(sel) : \A k \in 1..4 : Pt(post.V, post.F[i][k]) = Pt(src.V, src.F[sel[i]+1][k]))
      \o Cl("extract-exactly-used-vertices",
            /\ UsedIds(post.F) = 0..Len(post.V)-1
            /\ Len(post.V) = Cardinality(UNION {Range(src.F[sel[i]+1]) : i \in 1..Len(sel)}))
      \o ClIf("extract-map", ids # << -1 >>, idok /\
            \A i \in 1..Len(sel) : \A k \in 1..4 : ids[post.F[i][k] + 1] = src.F[sel[i]+1][k])

(********************************* queries *********************************)
\* faces with a usable normal: not needles compared to the mesh
Fat(m, i, L) == FLt(Rel(7, FMul(L, L)), FaceArea(m.V, m.F[i]))

AllProper(F) == \A i \in 1..Len(F) : ProperFace(F[i])
ObsCl(m, e) ==
  LET n == Len(m.F)
      L == Scale(m.V)
      q == e.q
      r == e.r
      arr == e.shape          \* the harness checked the array shape against nb_faces / nb_vertices
  IN
  IF ~arr THEN Cl("query-shape-" \o q, FALSE) ELSE
  CASE q = "areas" ->
       Cl("areas", Len(r) = n /\ \A i \in 1..n : Close(r[i], FaceArea(m.V, m.F[i]), Rel(11, FMul(L, L))))
    [] q = "normals" ->
       Cl("normals", Len(r) = n /\ \A i \in 1..n : Fat(m, i, L) =>
            /\ VClose(r[i], FaceNormal(m.V, m.F[i]), Tiny(7)))
    [] q = "centers" ->
       Cl("centers", Len(r) = n /\ \A i \in 1..n : Fat(m, i, L) => VClose(r[i], FaceCenter(m.V, m.F[i]), Rel(8, L)))
    [] q = "triangles_ids" -> Cl("triangles-ids", Range(r) = TriIds(m.F) /\ Len(r) = Cardinality(TriIds(m.F)))
    [] q = "quadrangles_ids" -> Cl("quadrangles-ids", Range(r) = QuadIds(m.F) /\ Len(r) = Cardinality(QuadIds(m.F)))
    [] q = "counts" -> Cl("counts", r = <<Len(m.V), n, Cardinality(TriIds(m.F)), Cardinality(QuadIds(m.F))>>)
    [] q = "integrals" ->
       LET tol == <<Rel(11, FMul(L, FMul(L, L))), Rel(11, FMul(L, FMul(L, FMul(L, L)))),
                    Rel(11, FMul(FMul(L, L), FMul(L, FMul(L, L))))>>
       IN Cl("integrals", Len(r) = 15 /\ \A k \in 1..15 : Len(r[k]) = n /\
            \A i \in 1..n : LET x == FaceIntegrals(m.V, m.F[i]) IN
               Close(r[k][i], x[k], tol[IntegralDegree[k]]))
    [] q = "volume" ->
       \* the flux formula over faces: normal . int(x,y,z) / 3, exact when faces are planar
       LET fl == TLCEval([i \in 1..n |-> LET x == FaceIntegrals(m.V, m.F[i]) nn == FaceNormal(m.V, m.F[i])
                                         IN Dot(nn, <<x[1], x[2], x[3]>>)])
           tol == FMulI(Rel(9, FMul(L, FMul(L, L))), n)
       IN ClIf("volume-flux", AllPlanar(m.V, m.F) /\ \A i \in 1..n : Fat(m, i, L), Close(r, FDivI(FSumSeq(fl), 3), tol))
          \o ClIf("volume-exact", Closed(m.F) /\ Consistent(m.F) /\ AllPlanar(m.V, m.F) /\ \A i \in 1..n : Fat(m, i, L),
                  Close(r, Volume(m.V, m.F), tol))
    [] q = "plain" ->
       LET ts == TLCEval(AllTris(m.V, m.F))
           vol == Volume(m.V, m.F)
           rho == e.rho
           L3 == FMul(L, FMul(L, L))
           tm == FMulI(Rel(9, FMul(rho, L3)), n)
           good == Closed(m.F) /\ Consistent(m.F) /\ AllPlanar(m.V, m.F) /\ FLt(Rel(3, L3), vol) /\ \A i \in 1..n : Fat(m, i, L)
       IN ClIf("solid-mass", good, Close(r.mass, FMul(rho, vol), tm))
          \o ClIf("solid-cog", good, VClose(r.cog, VDiv(VolMoment1(ts), vol), FDiv(FMulI(Rel(9, FMul(L3, L)), n), vol)))
          \o ClIf("solid-inertia", good,
                  MClose(r.mat, MScale(rho, SolidInertia(ts)), FMulI(Rel(9, FMul(rho, FMul(L3, FMul(L, L)))), n)))
          \o ClIf("solid-at-origin", good, VClose(r.point, VZero, Tiny(15)))
          \o ClIf("inertia-fields", good, MClose(r.mat, << <<r.xx, FNeg(r.xy), FNeg(r.xz)>>, <<FNeg(r.xy), r.yy, FNeg(r.yz)>>, <<FNeg(r.xz), FNeg(r.yz), r.zz>> >>, Tiny(20)))
    [] q = "shell" ->
       LET ts == TLCEval(AllTris(m.V, m.F))
           A == TotalArea(m.V, m.F)
           sd == FMul(e.rho, e.thick)
           L2 == FMul(L, L)
           good == FLt(Rel(3, L2), A)     \* a quadrangle is two triangles, plane or not
       IN ClIf("shell-mass", good, Close(r.mass, FMul(sd, A), FMulI(Rel(10, FMul(sd, L2)), n)))
          \o ClIf("shell-cog", good, VClose(r.cog, VDiv(ShellM1(m.V, m.F), A), FDiv(FMulI(Rel(10, FMul(L2, L)), n), A)))
          \o ClIf("shell-inertia", good, MClose(r.mat, MScale(sd, ShellInertia(ts)), FMulI(Rel(10, FMul(sd, FMul(L2, L2))), n)))
          \o ClIf("shell-at-origin", good, VClose(r.point, VZero, Tiny(15)))
    [] q = "vv" -> LET x == VVof(m.F, Len(m.V)) IN
       ClIf("vertex-vertex", AllProper(m.F), Len(r) = Len(m.V) /\ \A v \in 1..Len(r) : Range(r[v]) = x[v-1])
    [] q = "vf" -> LET x == VFof(m.F, Len(m.V)) IN
       ClIf("vertex-faces", AllProper(m.F), Len(r) = Len(m.V) /\ \A v \in 1..Len(r) : Range(r[v]) = x[v-1])
    [] q = "ff" -> LET x == FFof(m.F) IN
       ClIf("face-faces", Conformal(m.F), Len(r) = n /\ \A i \in 1..n : Range(r[i]) = x[i-1])
    [] q = "boundaries" ->
       ClIf("boundaries", Conformal(m.F) /\ Consistent(m.F) /\ SimpleBoundary(m.F), LoopsCover(r, BoundaryDEdges(m.F)))
    [] q = "nb_boundaries" ->
       ClIf("nb-boundaries-zero-iff-closed", Conformal(m.F) /\ Consistent(m.F) /\ SimpleBoundary(m.F), (r = 0) = Closed(m.F))
    [] q = "closed" -> ClIf("closedness", Conformal(m.F), r = Closed(m.F))
    [] q = "bbox" -> Cl("bbox", \A k \in 1..6 : Close(r[k], BBox(m.V)[k], Rel(13, L)))
    [] q = "sqbbox" ->
       LET b == BBox(m.V)
           d == FDivI(FMax(FSub(b[2], b[1]), FMax(FSub(b[4], b[3]), FSub(b[6], b[5]))), 2)
           c(k) == FDivI(FAdd(b[2*k-1], b[2*k]), 2)
       IN Cl("squared-bbox", \A k \in 1..3 : /\ Close(r[2*k-1], FSub(c(k), d), Rel(12, L))
                                             /\ Close(r[2*k], FAdd(c(k), d), Rel(12, L)))
    [] q = "edges" ->
       LET len(i, k) == Norm(VSub(Pt(m.V, m.F[i][k]), Pt(m.V, m.F[i][IF k = 1 THEN 4 ELSE k-1])))
           all == TLCEval(FlattenSeq([i \in 1..n |-> LET k0 == IF IsTri(m.F[i]) THEN 1 ELSE 0 IN [k \in 1..(4 - k0) |-> len(i, k + k0)]]))
       IN Cl("edge-max", Close(r[2], FMaxSeq(all), Rel(11, L)))
          \o Cl("edge-min", Close(r[1], FMinSeq(all), Rel(11, L)))
          \o Cl("edge-mean", Close(r[3], FDivI(FSumSeq(all), Len(all)), Rel(11, L)))
    \* a mesh is conformal unless one of its boundaries is collapsed
    [] q = "conformal" ->
       LET sh == TLCEval({Shadow(m.V, E) : E \in BoundaryLoops(m.F)})
           err == FAdd(Rel(12, FMul(L, L)), Tiny(8))
           sure == \A x \in sh : ~Close(x, Tiny(7), err)
       IN IF Conformal(m.F) /\ Consistent(m.F) /\ SimpleBoundary(m.F) /\ sure THEN Cl("conformal-unless-collapsed-boundary", r = (\A x \in sh : FLt(Tiny(7), x))) ELSE NoClause
    \* printed with six digits, from points held in single precision
    [] q = "quality" ->
       LET ids(tri) == SetToSeq({i \in 1..n : IsTri(m.F[i]) = tri})
           stats(vals) == << FMinSeq(vals), FMaxSeq(vals), FDivI(FSumSeq(vals), Len(vals)) >>
           len(i, k) == Norm(VSub(Pt(m.V, m.F[i][k]), Pt(m.V, m.F[i][IF k = 1 THEN (IF IsTri(m.F[i]) THEN 3 ELSE 4) ELSE k-1])))
           lens(i) == TLCEval([k \in 1..NC(m.F[i]) |-> len(i, k)])
           fat == \A i \in 1..n : FLt(Rel(2, L), FMinSeq(lens(i)))
           ratio(i) == FDiv(FMaxSeq(lens(i)), FMinSeq(lens(i)))
           areas(is) == [j \in 1..Len(is) |-> FaceArea(m.V, m.F[is[j]])]
           ratios(is) == [j \in 1..Len(is) |-> ratio(is[j])]
           okA(x, is) == LET s == TLCEval(stats(areas(is))) IN \A k \in 1..3 : Close(x[k], s[k], FAdd(Rel(5, s[2]), Rel(5, FMul(L, L))))
           okR(x, is) == LET s == TLCEval(stats(ratios(is))) IN \A k \in 1..3 : Close(x[k], s[k], FMulI(Rel(4, s[2]), 2))
           part(x, is) == Cl("quality-counts", x.n = Len(is))
              \o ClIf("quality-areas", Len(is) > 0 /\ AllPlanar(m.V, m.F), okA(x.area, is)) \o ClIf("quality-edge-ratios", Len(is) > 0 /\ fat, okR(x.ratio, is))
       IN IF \E i \in 1..n : ~ProperFace(m.F[i]) THEN NoClause ELSE part(r.Triangle, ids(TRUE)) \o part(r.Quadrilateral, ids(FALSE))
    [] q = "str" -> LET b == BBox(m.V) IN
       Cl("shown-counts", r.counts = <<Len(m.V), n, Cardinality(TriIds(m.F)), Cardinality(QuadIds(m.F))>> /\ r.name)
       \o Cl("shown-bbox", \A k \in 1..6 : Close(r.box[k], b[k], FAdd(Tiny(6), Rel(13, L))))
    [] q = "saved" -> Cl("saved-name", r.files = <<r.want>>) \o Cl("saved-faces", FacesEq(r.F, m.F)) \o Cl("saved-vertices", VtxClose(r.V, m.V, FAdd(Rel(6, L), Tiny(23))))
    [] q = "faceview" ->
       Cl("face-view", Len(r) = n /\ \A i \in 1..n : r[i] = Corners(m.F[i]))
    [] q = "istri" -> Cl("is-triangle", Len(r) = n /\ \A i \in 1..n : r[i] = IsTri(m.F[i]))
    [] OTHER -> Cl("unknown-query-" \o q, FALSE)

(******************************** one event ********************************)
OpCl(e) ==
  LET pre == reg[e.m]
      post == e.post
  IN CASE e.o \in {"new", "setV", "setF"} ->
          Cl("holds-what-it-was-given", post.V = e.V /\ FacesEq(post.F, e.F))
       [] e.o = "copy" -> LET s == reg[e.src] IN Cl("copy-equal", post.V = s.V /\ FacesEq(post.F, s.F))
       [] e.o = "translate" -> AffCl(pre, post, MapV(pre, LAMBDA p : VAdd(p, e.t)), Rel(13, VMaxAbs(e.t))) \o SameF(pre, post)
       [] e.o = "scale" -> AffCl(pre, post, MapV(pre, LAMBDA p : ScaleBy(p, e.k)), Zero) \o SameF(pre, post)
       [] e.o = "rotate" ->
            LET R == MMul(RotZ(e.ang[3]), MMul(RotY(e.ang[2]), RotX(e.ang[1])))
            IN AffCl(pre, post, MapV(pre, LAMBDA p : MVec(R, p)), Zero) \o SameF(pre, post)
               \o Cl("rotation-matrix-returned", e.rshape /\ MClose(e.ret, R, Tiny(12)))
       [] e.o = "rotmat" -> AffCl(pre, post, MapV(pre, LAMBDA p : MVec(e.R, p)), Zero) \o SameF(pre, post)
       [] e.o = "flip" -> KeepV(pre, post) \o FlipF(pre, post)
       [] e.o = "mirror" -> AffCl(pre, post, MapV(pre, LAMBDA p : Reflect(p, e.n, e.c)), Rel(11, FAbs(e.c))) \o FlipF(pre, post)
       [] e.o = "symmetrize" -> SymCl(pre, post, e.n, e.c)
       [] e.o = "merge" -> MergeCl(pre, post, e.atol) \o (IF e.ids # << -1 >> THEN MapCl(pre, post, e.atol, e.ids) ELSE NoClause)
       [] e.o = "unused" -> UnusedCl(pre, post)
       [] e.o = "healtri" -> HealTriCl(pre, post)
       [] e.o = "degen" -> DegenCl(pre, post, e.rtol)
       [] e.o = "healnormals" -> HealNormalsCl(pre, post)
       [] e.o = "healmesh" -> HealMeshCl(pre, post, Tiny(5))
       [] e.o = "triangulate" -> TriangulateCl(pre, post)
       [] e.o = "add" -> AddCl(reg[e.a], reg[e.b], post)
       [] e.o = "extract" -> ExtractCl(reg[e.src], e.sel, post, e.ids)
       [] OTHER -> Cl("unknown-op-" \o e.o, FALSE)

\* connectivity is only defined on conformal meshes: elsewhere the library may refuse
TopoQ == {"vv", "vf", "ff", "boundaries", "nb_boundaries", "closed", "conformal"}
\* healing this mesh clearly gives a surface whose connectivity is defined: vertices are the same or far apart, in each
\* coordinate, faces are clearly degenerate or not, and what is left is conformal
HealsToConformal(m, rtol) ==
   LET nv == Len(m.V) n == Len(m.F)
       used == TLCEval(UsedIds(m.F))
       same(i, j) == \A c \in 1..3 : FLe(FAbs(FSub(m.V[i][c], m.V[j][c])), FMulI(Tiny(9), 4))
       sep == \A i \in used : \A j \in used : i < j =>
                 \A c \in 1..3 : LET d == FAbs(FSub(m.V[i+1][c], m.V[j+1][c])) IN FLe(d, FMulI(Tiny(9), 4)) \/ FLe(Tiny(7), d)
       first == TLCEval([i \in used |-> CHOOSE j \in used : same(i+1, j+1) /\ \A k \in used : k < j => ~same(i+1, k+1)])
       areas == TLCEval([i \in 1..n |-> FaceArea(m.V, m.F[i])])
       thr == FMul(FDivI(FSumSeq(areas), n), rtol)
       eps == Rel(9, FAdd(thr, Rel(3, FDivI(FSumSeq(areas), n))))
       clear == \A i \in 1..n : FLt(eps, FAbs(FSub(areas[i], thr)))
       left == SelectSeq([i \in 1..n |-> i], LAMBDA i : FLe(thr, areas[i]))
       G == TLCEval([h \in 1..Len(left) |-> LET c == NormCorners([k \in 1..4 |-> first[m.F[left[h]][k]]])
                                            IN IF Len(c) = 3 THEN <<c[1], c[2], c[3], c[1]>> ELSE IF Len(c) = 4 THEN c ELSE <<0, 0, 0, 0>>])
   IN n > 0 /\ sep /\ clear /\ Conformal(G)
MayFail(e) == \/ e.o = "obs" /\ e.q \in TopoQ /\ ~Conformal(reg[e.m].F)
              \/ e.o = "healnormals" /\ ~Conformal(reg[e.m].F)
              \/ e.o = "healmesh" /\ ~(WellFormed(reg[e.m]) /\ Len(reg[e.m].V) > 0 /\ FLe(Tiny(2), Scale(reg[e.m].V)) /\ HealsToConformal(reg[e.m], Tiny(5)))
\* the specification computes with 24 decimals: lengths must be well above them
Measurable(m) == Len(m.V) = 0 \/ FLe(Tiny(2), Scale(m.V))
Creates == {"new", "copy", "add", "extract"}
\* events that only use meshes: nothing may change
Uses == {"obs", "use"}

EventCl(e) ==
  IF e.o = "start" THEN NoClause
  ELSE IF e.exc # "" THEN (IF MayFail(e) THEN NoClause ELSE Cl("no-exception", FALSE))
  ELSE Cl("only-the-target-changes", Range(e.chg) \subseteq (IF e.o \in Uses THEN {} ELSE {e.m}))
       \o (IF e.o = "use" THEN NoClause
           ELSE IF e.o = "obs" THEN (IF WellFormed(reg[e.m]) /\ Measurable(reg[e.m]) THEN ObsCl(reg[e.m], e) ELSE NoClause)
           ELSE IF ~WellFormed(e.post) THEN Cl("well-formed-result", FALSE)
           ELSE OpCl(e))

\* the specification continues from what was observed
RegNext(e) ==
  IF e.o = "start" THEN [x \in {} |-> x]
  ELSE IF Has(e, "post") THEN [x \in (DOMAIN reg) \cup {e.m} |-> IF x = e.m THEN e.post ELSE reg[x]]
  ELSE reg

Init == l = 1 /\ reg = [x \in {} |-> x] /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ reg' = RegNext(e)
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
