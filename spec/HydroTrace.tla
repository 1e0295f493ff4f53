---------------------------- MODULE HydroTrace ----------------------------
(***************************************************************************)
(* Trace validation of hydrostatics and equilibria.  State: mesh registers *)
(* and, per mesh, the last displacement equilibrium found.                 *)
(***************************************************************************)
EXTENDS HydroGeom, Clauses

Trace == JsonDeserialize(TraceFile)
VARIABLES l, reg, dsp, cov
vars == <<l, reg, dsp, cov>>

P(n, x) == FMul(Tiny(n), x)
F3(a, b, c) == FAdd(a, FAdd(b, c))
AbsMax(a, b) == FMax(FAbs(a), FAbs(b))

Side(d) == IF "b" \notin d.labs THEN "above" ELSE IF d.labs = {"b"} THEN "below" ELSE "cross"

\* a quantity q/v with q within e: error e/v + |q/v| ev/v
DataCl(d, e) ==
   LET R == e.R z == e.z o == e.out
       g == LET w == MVec(R, e.cog) IN <<w[1], w[2], FAdd(w[3], z)>>
       q == IF e.atcog THEN g ELSE VZero
       h == TLCEval(Hydro(d, q, g))
       L == FMax(d.L, Scale(<<g>>))     \* lengths
       L2 == FMul(L, L) L3 == FMul(L, L2) L4 == FMul(L2, L2) L5 == FMul(L2, L3)
       big == TLCEval(FLt(P(5, L3), h.v) /\ FLt(P(5, L2), h.A))
       rv == FDiv(L3, h.v) ra == FDiv(L2, h.A)       \* conditioning
       tl == FAdd(Tiny(12), P(9, L))
       tb == FAdd(tl, P(10, FMul(L, rv)))
       tf == FAdd(tl, P(10, FMul(L, ra)))
       tr == FAdd(tl, P(10, FMul(FMul(L, rv), FAdd(One, rv))))
       rg == FMul(e.rho, e.grav)
       K == Stiff(h, e.rho, e.grav)
       ts == FAdd(FDivI(Tiny(4), 1), FAdd(Tiny(9), P(10, FMul(rg, FAdd(L2, FAdd(L3, FMul(L4, FAdd(One, rv))))))))
       m == FMul(e.rho, h.v)
       ti == FAdd(Tiny(9), P(9, FMul(e.rho, L5)))
       fp == h.wb[2]
       lwl == FSub(h.wb[2], h.wb[1])
       lpp == IF e.haslpp THEN e.lpp ELSE IF e.orig THEN fp ELSE lwl
   IN ClIf("hydro-volume", big, Close(o.v, h.v, P(10, L3)))
   \o ClIf("hydro-mass", big, Close(o.mass, m, FMul(e.rho, P(10, L3))))
   \o ClIf("hydro-wet-area", big, Close(o.wet, h.wet, P(9, L2)))
   \o ClIf("hydro-buoyancy-centre", big, VClose(o.b, Unplaced(h.b, R, z), tb))
   \o ClIf("hydro-waterplane-area", big, Close(o.A, h.A, P(10, L2)))
   \o ClIf("hydro-waterplane-centre", big, VClose(o.f, Unplaced(<<h.fx, h.fy, Zero>>, R, z), tf))
   \o ClIf("hydro-extents", big, /\ Close(o.lwl, lwl, tl) /\ Close(o.bwl, FSub(h.wb[4], h.wb[3]), tl) /\ Close(o.breadth, FSub(h.wb[4], h.wb[3]), tl)
                                 /\ Close(o.los, FSub(h.bb[2], h.bb[1]), tl) /\ Close(o.bos, FSub(h.bb[4], h.bb[3]), tl)
                                 /\ Close(o.draught, FNeg(h.bb[5]), tl))
   \o ClIf("hydro-forward-perpendicular", big, Close(o.fp, fp, tl))
   \o ClIf("hydro-lpp", big, Close(o.lpp, lpp, tl) /\ o.trust = (e.haslpp \/ e.orig))
   \o ClIf("hydro-metacentric-radii", big, Close(o.bm, h.bm, tr) /\ Close(o.bl, h.bl, tr))
   \o ClIf("hydro-metacentric-heights", big, Close(o.gm, h.gm, tr) /\ Close(o.gl, h.gl, tr))
   \o ClIf("hydro-stiffness", big, MClose(o.K, K, ts))
   \o Cl("hydro-stiffness-symmetric", o.K[1][2] = o.K[2][1] /\ o.K[1][3] = o.K[3][1] /\ o.K[2][3] = o.K[3][2])
   \o ClIf("hydro-inertias", big, MClose(o.I, MScale(e.rho, h.I), ti))
   \o Cl("hydro-inputs-recorded", /\ o.grav = e.grav /\ o.rho = e.rho /\ o.z = e.z /\ o.R = e.R /\ o.cog = e.cog /\ o.same)

HydroCl(e) ==
   LET d == Immersed(reg[e.m], e.R, e.z)
   IN Cl("hydro-inputs-unchanged", Len(e.chg) = 0)
      \o (IF ~d.clear THEN NoClause
          ELSE IF Side(d) # "cross" THEN
             ClIf("hydro-refused-naming-the-side", d.labs # {"o"}, e.exct = "RuntimeError" /\ Side(d) \in Range(e.exca))
          ELSE IF ~d.ok THEN NoClause
          ELSE IF d.open THEN Cl("hydro-open-refused", e.exct = "RuntimeError")
          ELSE IF e.exct # "" THEN ClIf("hydro-no-exception", d.water /\ d.closed, FALSE)
          ELSE IF d.closed /\ d.water THEN DataCl(d, e) ELSE NoClause)

(* displacement equilibrium: the returned correction puts the displaced mass at the target *)
DispCl(e) ==
   LET m == reg[e.m]
       I0 == Immersed(m, MId, Zero)
       tgt == FMulI(e.disp, 1000)
       zs == TLCEval([i \in 1..Len(m.V) |-> m.V[i][3]])
       hmax == FMaxSeq(zs) hmin == FMinSeq(zs)
       full == FMul(e.rho, Volume(m.V, m.F))
       \* reachable with some margin, so that the waterplane at the solution is clearly within the hull
       reach == TLCEval(FLt(FMul(Tiny(2), full), tgt) /\ FLt(tgt, FSub(full, FMul(Tiny(2), full))))
       dz == Immersed(m, MId, e.z)
       err == FAbs(FSub(FMul(e.rho, ImmVolume(dz)), tgt))
       \* every horizontal plane between its bottom and its top meets the hull
       spans == \A v \in 1..Len(zs) : FLt(zs[v], hmax) => \E f \in 1..Len(m.F) :
                  /\ \E k \in 1..4 : FLe(m.V[m.F[f][k] + 1][3], zs[v])
                  /\ \E k \in 1..4 : FLt(zs[v], m.V[m.F[f][k] + 1][3])
       okd == I0.clear /\ spans /\ I0.ok /\ Side(I0) = "cross" /\ I0.closed
       \* a vertex close to the final waterplane is taken as on it: the displacement jumps there
       settled == dz.clear /\ Side(dz) = "cross"
       under == spans /\ I0.clear /\ I0.closed /\ Side(I0) = "below"
       found == IF ~reach THEN
             ClIf("displacement-unreachable-limited", FLt(FMul(FAdd(One, Tiny(2)), full), tgt), e.exct = "RuntimeError" \/ (e.exct = "" /\ e.warn))
          ELSE IF e.exct # "" THEN Cl("displacement-found", FALSE)
          ELSE ClIf("displacement-reached", settled, FLe(err, FMul(e.reltol, FMul(tgt, FAdd(One, Tiny(3))))))
   IN Cl("equilibrium-inputs-unchanged", Len(e.chg) = 0)
      \o (IF under /\ e.exct = "RuntimeError" THEN Cl("displacement-clear-report", "below" \in Range(e.exca))     \* may also be said not to be at the free surface
          ELSE IF okd \/ under THEN found
          ELSE ClIf("displacement-clear-report", spans /\ I0.clear /\ I0.closed /\ Side(I0) # "cross",
                  (e.exct = "RuntimeError" /\ Side(I0) \in Range(e.exca)) \/ e.exct = ""))

(* full equilibrium *)
FullCl(e) ==
   LET m == reg[e.m]
       tgt == FMulI(e.disp, 1000)
       has == e.m \in DOMAIN dsp
       \* a chain of equilibria brings the centre of gravity from over the centre of buoyancy of the upright hull to where it
       \* is: each clearly stable in every direction, each close to the one before
       b0 == LET i == Immersed(m, MId, dsp[e.m]) IN VDiv(ImmMoment(i), ImmVolume(i))
       gt(t) == <<FAdd(b0[1], FMul(t, FSub(e.cog[1], b0[1]))), FAdd(b0[2], FMul(t, FSub(e.cog[2], b0[2]))), e.cog[3]>>
       rests(t, R, z) ==
         LET i == Immersed(m, R, z)
         IN i.closed /\ Side(i) = "cross" /\ i.water
            /\ LET g == LET w == MVec(R, gt(t)) IN <<w[1], w[2], FAdd(w[3], z)>>
                   v == TLCEval(ImmVolume(i))
                   b == TLCEval(VDiv(ImmMoment(i), v))
                   ar == TLCEval(WArea(i.edges, VZero))
                   q == TLCEval(<<FDiv(WX(i.edges, VZero), ar), FDiv(WY(i.edges, VZero), ar), Zero>>)     \* centre of the waterplane
                   bg == FSub(g[3], b[3])
                   gm == TLCEval(FSub(FDiv(WYY(i.edges, q), v), bg))
                   gl == TLCEval(FSub(FDiv(WXX(i.edges, q), v), bg))
                   x == FDiv(WXY(i.edges, q), v)
                   bb == TLCEval(BBox(i.W))
                   mu == FDivI(FSub(bb[6], bb[5]), 40)
               IN /\ FLt(mu, gm) /\ FLt(mu, gl) /\ FLt(FMul(x, x), FMul(FSub(gm, mu), FSub(gl, mu)))
                  /\ FLe(FAbs(FSub(FMul(e.rho, v), tgt)), FMul(Tiny(2), tgt))
                  /\ FLe(FAbs(FSub(b[1], g[1])), FMul(Tiny(3), FSub(bb[2], bb[1])))
                  /\ FLe(FAbs(FSub(b[2], g[2])), FMul(Tiny(3), FSub(bb[4], bb[3])))
       near(A, B) == LET r == MMul(A, MT(B)) IN FLt(FSub(FInt(3), FDivI(One, 50)), F3(r[1][1], r[2][2], r[3][3]))
       n == Len(e.path)
       dom == TLCEval(/\ e.dom /\ has /\ n > 0 /\ rests(Zero, MId, dsp[e.m]) /\ e.path[n].t = One
                      /\ \A i \in 1..n : /\ rests(e.path[i].t, e.path[i].R, e.path[i].z) /\ IsRot(e.path[i].R, Tiny(9))
                                         /\ near(e.path[i].R, IF i = 1 THEN MId ELSE e.path[i-1].R))
       d == Immersed(m, e.R, e.z)
       g == LET w == MVec(e.R, e.cog) IN <<w[1], w[2], FAdd(w[3], e.z)>>
       h == Hydro(d, VZero, g)
       mm == FMul(e.rho, h.v)
       lim(sc) == FMul(e.reltol, FMul(tgt, FMul(sc, FAdd(One, Tiny(3)))))
       settled == d.ok /\ d.closed /\ d.water /\ Side(d) = "cross"
   IN Cl("equilibrium-inputs-unchanged", Len(e.chg) = 0)
      \o (IF ~dom THEN NoClause
          ELSE IF e.exct # "" THEN Cl("full-equilibrium-found", FALSE)
          ELSE Cl("full-rotation-proper", IsRot(e.R, Tiny(10)))
               \o ClIf("full-displacement-reached", settled, FLe(FAbs(FSub(mm, tgt)), lim(One)))
               \o ClIf("full-buoyancy-under-gravity", settled,
                     /\ FLe(FAbs(FSub(FMul(mm, h.b[2]), FMul(tgt, g[2]))), lim(FSub(h.wb[4], h.wb[3])))
                     /\ FLe(FAbs(FSub(FMul(mm, h.b[1]), FMul(tgt, g[1]))), lim(FSub(h.wb[2], h.wb[1])))))

(* the report prints the data: each line within half a unit of its last digit *)
ReportCl(e) ==
   Cl("report-complete", Len(e.lines) = e.expected)
   \o Cl("report-shows-data", \A i \in 1..Len(e.lines) : LET x == e.lines[i] IN Close(x.shown, x.value, x.half))

EventCl(e) ==
   CASE e.o = "start" -> NoClause
     [] e.o = "mesh" -> IF e.exc # "" THEN Cl("no-exception", FALSE) ELSE NoClause
     [] e.o = "hydro" -> HydroCl(e)
     [] e.o = "disp" -> DispCl(e)
     [] e.o = "full" -> FullCl(e)
     [] e.o = "report" -> IF e.exc # "" THEN ClIf("no-exception", \A m \in DOMAIN reg : Closed(reg[m].F), FALSE) ELSE ReportCl(e)
     [] e.o = "poke" -> Cl("hydro-results-share-nothing", Len(e.chg) = 0)
     [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ reg = [x \in {} |-> x] /\ dsp = [x \in {} |-> x] /\ cov = [x \in {} |-> 0]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ reg' = IF e.o = "start" THEN [x \in {} |-> x] ELSE IF e.o = "mesh" THEN Put(reg, e.m, e.post) ELSE reg
              /\ dsp' = IF e.o = "start" THEN [x \in {} |-> x] ELSE IF e.o = "disp" /\ e.exct = "" THEN Put(dsp, e.m, e.z) ELSE dsp
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
