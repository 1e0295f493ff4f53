---------------------------- MODULE HydroGeom ----------------------------
(***************************************************************************)
(* Hydrostatics of a closed polyhedron with planar faces.  The hull is     *)
(* placed by x' = R x + z e_z; its immersed part is the clipped surface    *)
(* under the plane z = 0; the waterplane is bounded by the edges the cut   *)
(* creates.  All quantities are exact integrals over these.                *)
(***************************************************************************)
EXTENDS ClipGeom

EZ == <<Zero, Zero, One>>
Placed(V, R, z) == TLCEval([i \in 1..Len(V) |-> VAdd(MVec(R, V[i]), <<Zero, Zero, z>>)])
Unplaced(p, R, z) == MVec(MT(R), VSub(p, <<Zero, Zero, z>>))
VicTol == Tiny(3)

\* triangles of the fan of a polygon
Fan(p) == [k \in 1..Len(p)-2 |-> <<p[1], p[k+1], p[k+2]>>]

Immersed(m, R, z) ==
   LET W == Placed(m.V, R, z)
       can == Canon(m.V)
       L == Scale(W)
       D == TLCEval([i \in 1..Len(W) |-> W[i][3]])
       lab == TLCEval([v \in 0..Len(W)-1 |-> Label(D[v+1], VicTol)])
       Fc == TLCEval([i \in 1..Len(m.F) |-> [k \in 1..4 |-> can[m.F[i][k]]]])
       ps == TLCEval([i \in 1..Len(Fc) |-> ClipPoly(Fc[i], lab)])
       keys == TLCEval(UNION {Range(ps[i]) : i \in 1..Len(ps)})
       kp == TLCEval([k \in keys |-> KeyPos(W, D, k)])
       ks == SetToSeq(keys)
       E == TLCEval(WaterEdges(ps, lab))
       tris == TLCEval(FlattenSeq([i \in 1..Len(ps) |-> IF ps[i] = <<>> THEN <<>> ELSE Fan([k \in 1..Len(ps[i]) |-> kp[ps[i][k]]])]))
       es == SetToSeq(E)
       edges == TLCEval([i \in 1..Len(es) |-> <<kp[es[i][1]], kp[es[i][2]]>>])
       labs == TLCEval({lab[v] : v \in 0..Len(W)-1})
       \* vertices are on the plane up to rounding or clearly out of the tolerance
       clear == \A i \in 1..Len(D) : LET a == FAbs(D[i]) IN FLe(a, Tiny(9)) \/ FLt(FDivI(Tiny(2), 5), a)
       simple == \A i \in 1..Len(Fc) : ProperFace(Fc[i]) /\ SimpleFace(Fc[i], lab)
       sep == \A i, j \in 1..Len(ks) : i < j => ~VClose(kp[ks[i]], kp[ks[j]], Tiny(4))
   IN [W |-> W, L |-> L, kp |-> kp, E |-> E, edges |-> edges, tris |-> tris, labs |-> labs, clear |-> clear,
       closed |-> Closed(Fc) /\ Consistent(Fc), water |-> E # {} /\ RegularWater(E) /\ ~OpenEnds(E), open |-> OpenEnds(E),
       ok |-> clear /\ simple /\ sep /\ RegularWater(E)]

(* integrals over the waterplane, about the vertical axis through q          *)
EdgeX(e, q) == <<FSub(e[1][1], q[1]), FSub(e[1][2], q[2]), FSub(e[2][1], q[1]), FSub(e[2][2], q[2])>>   \* px py qx qy
Cr(w) == FSub(FMul(w[1], w[4]), FMul(w[3], w[2]))
WSum(edges, q, Op(_)) == FSumSeq([i \in 1..Len(edges) |-> Op(EdgeX(edges[i], q))])
WArea(es, q) == FDivI(WSum(es, q, Cr), 2)
WX(es, q)  == FDivI(WSum(es, q, LAMBDA w : FMul(Cr(w), FAdd(w[1], w[3]))), 6)
WY(es, q)  == FDivI(WSum(es, q, LAMBDA w : FMul(Cr(w), FAdd(w[2], w[4]))), 6)
WXX(es, q) == FDivI(WSum(es, q, LAMBDA w : FMul(Cr(w), FAdd(FMul(w[1], w[1]), FAdd(FMul(w[1], w[3]), FMul(w[3], w[3]))))), 12)
WYY(es, q) == FDivI(WSum(es, q, LAMBDA w : FMul(Cr(w), FAdd(FMul(w[2], w[2]), FAdd(FMul(w[2], w[4]), FMul(w[4], w[4]))))), 12)
WXY(es, q) == FDivI(WSum(es, q, LAMBDA w : FMul(Cr(w), FAdd(FMulI(FAdd(FMul(w[1], w[2]), FMul(w[3], w[4])), 2),
                                                        FAdd(FMul(w[1], w[4]), FMul(w[3], w[2]))))), 24)

ImmVolume(d) == FDivI(FSumSeq([i \in 1..Len(d.tris) |-> TetDet(d.tris[i])]), 6)
ImmMoment(d) == VolMoment1(d.tris)

\* everything reported, q: the point about which the stiffness is expressed; g: centre of gravity, placed
Hydro(d, q, g) ==
   LET v == ImmVolume(d)
       b == VDiv(ImmMoment(d), v)
       es == d.edges
       A == WArea(es, q) sx == WX(es, q) sy == WY(es, q)
       sxx == WXX(es, q) syy == WYY(es, q) sxy == WXY(es, q)
       bm == FDiv(syy, v) bl == FDiv(sxx, v) bg == FSub(g[3], b[3])
       used == Range(d.kp)
       us == TLCEval(SetToSeq(used))
       bb == BBox(us)
       wpts == TLCEval(SetToSeq({es[i][1] : i \in 1..Len(es)}))
       wb == BBox(wpts)
       IO == SolidInertia(d.tris)     \* unit density, about the origin of the placed frame
       IG == MSub(IO, MScale(v, Huygens(b)))
       Ig == MAdd(IG, MScale(v, Huygens(VSub(b, g))))
   IN [v |-> v, b |-> b, wet |-> FSumSeq([i \in 1..Len(d.tris) |-> TriArea(d.tris[i])]),
       A |-> A, fx |-> FAdd(q[1], FDiv(sx, A)), fy |-> FAdd(q[2], FDiv(sy, A)),
       sx |-> sx, sy |-> sy, sxy |-> sxy, bm |-> bm, bl |-> bl, gm |-> FSub(bm, bg), gl |-> FSub(bl, bg),
       bb |-> bb, wb |-> wb, I |-> Ig]
Stiff(h, rho, grav) ==
   LET rg == FMul(rho, grav) s34 == FMul(rg, h.sy) s35 == FNeg(FMul(rg, h.sx)) s45 == FNeg(FMul(rg, h.sxy))
       s44 == FMul(FMul(rg, h.v), h.gm) s55 == FMul(FMul(rg, h.v), h.gl)
   IN << <<FMul(rg, h.A), s34, s35>>, <<s34, s44, s45>>, <<s35, s45, s55>> >>
=============================================================================
