----------------------------- MODULE ClipGeom -----------------------------
(***************************************************************************)
(* Clipping of faces by the plane n.x = c, in combinatorial form: vertices *)
(* are labelled a(bove), o(n, within the tolerance) or b(elow); a clipped  *)
(* face is a cyclic sequence of keys, <<v,v>> for a vertex, <<u,v>> (u<v)  *)
(* for the point where the edge u,v meets the plane.                       *)
(***************************************************************************)
EXTENDS MeshTopo

Dist(p, n, c) == FSub(Dot(p, n), c)
Label(d, tol) == IF FLt(tol, d) THEN "a" ELSE IF FLt(d, FNeg(tol)) THEN "b" ELSE "o"
VKey(v) == <<v, v>>
EKey(u, v) == IF u < v THEN <<u, v>> ELSE <<v, u>>
IsCut(k) == k[1] # k[2]
\* lab: vertex (0-based) -> label
Opp(x, y) == {x, y} = {"a", "b"}
ClipPoly(f, lab) ==
   LET c == Corners(f) n == Len(c)
   IN IF \A i \in 1..n : lab[c[i]] # "b" THEN <<>>
      ELSE FlattenSeq([i \in 1..n |->
              LET u == c[i] v == c[(i % n) + 1]
              IN (IF lab[u] = "a" THEN <<>> ELSE <<VKey(u)>>)
                 \o (IF Opp(lab[u], lab[v]) THEN <<EKey(u, v)>> ELSE <<>>)])
OnPlane(k, lab) == IsCut(k) \/ lab[k[1]] = "o"
PEdges(p) == {<<p[i], p[(i % Len(p)) + 1]>> : i \in 1..Len(p)}
PlaneEdges(p, lab) == {e \in PEdges(p) : OnPlane(e[1], lab) /\ OnPlane(e[2], lab)}
\* the waterline runs against the faces it bounds
WaterEdges(ps, lab) == UNION {{<<e[2], e[1]>> : e \in PlaneEdges(ps[i], lab)} : i \in 1..Len(ps)}
\* cyclic runs of a label
Runs(f, lab, x) == LET c == Corners(f) n == Len(c)
                   IN Cardinality({i \in 1..n : lab[c[i]] = x /\ lab[c[(i % n) + 1]] # x})
Count(f, lab, x) == Cardinality({i \in 1..NC(f) : lab[f[i]] = x})
\* a face that meets the plane as a planar convex face can: one run above, one run below,
\* and when it has both, at most one vertex of each crossing side on the plane
SimpleFace(f, lab) ==
   /\ Runs(f, lab, "a") <= 1 /\ Runs(f, lab, "b") <= 1
   /\ (Count(f, lab, "a") > 0 /\ Count(f, lab, "b") > 0) => \A i \in 1..NC(f) :
         LET c == Corners(f) v == c[(i % Len(c)) + 1] IN ~(lab[c[i]] = "o" /\ lab[v] = "o")
\* a quadrangle that is not plane may meet the plane otherwise: it is then its two triangles
Pieces(f, lab) == IF SimpleFace(f, lab) \/ Count(f, lab, "a") = 0 \/ Count(f, lab, "b") = 0 THEN << f >>
                  ELSE << <<f[1], f[2], f[3], f[1]>>, <<f[1], f[3], f[4], f[1]>> >>
\* each point of the waterline starts at most one edge and ends at most one, and no edge is run twice
Degree(E, k, side) == Cardinality({e \in E : e[side] = k})
RegularWater(E) == /\ \A e \in E : <<e[2], e[1]>> \notin E
                   /\ Cardinality({e[1] : e \in E}) = Cardinality(E)
                   /\ Cardinality({e[2] : e \in E}) = Cardinality(E)
\* no edge is run both ways (the two faces of a fin would both end on it); lines may touch each other at a vertex
SimpleWater(E) == \A e \in E : <<e[2], e[1]>> \notin E
\* number of cycles of an edge set in which every point starts and ends at most one edge
RECURSIVE Walk(_, _, _)
Walk(E, seen, k) == LET nx == {e \in E \ seen : e[1] = k}
   IN IF nx = {} THEN seen ELSE LET e == CHOOSE x \in nx : TRUE IN Walk(E, seen \cup {e}, e[2])
RECURSIVE CountCycles(_, _)
CountCycles(E, n) == IF E = {} THEN n
   ELSE LET e == CHOOSE x \in E : TRUE IN CountCycles(E \ Walk(E, {e}, e[2]), n + 1)
Contours(E) == CountCycles(E, 0)
OpenEnds(E) == \E k \in {e[1] : e \in E} \cup {e[2] : e \in E} : Degree(E, k, 1) # Degree(E, k, 2)
KeyPos(V, D, k) == IF ~IsCut(k) THEN V[k[1] + 1]
   ELSE LET p == V[k[1]+1] q == V[k[2]+1] dp == D[k[1]+1] dq == D[k[2]+1]
        IN VAdd(p, VScale(FDiv(dp, FSub(dp, dq)), VSub(q, p)))
Canon(V) == TLCEval([v \in 0..Len(V)-1 |-> CHOOSE u \in 0..v : V[u+1] = V[v+1] /\ \A w \in 0..u-1 : V[w+1] # V[v+1]])
=============================================================================
