----------------------------- MODULE MeshTopo -----------------------------
(* Connectivity of a mesh, as a function of the faces (and vertex count).   *)
EXTENDS MeshGeom

\* directed edges of a face, in order
DEdges(f) == LET c == Corners(f) n == Len(c) IN {<<c[k], c[(k % n) + 1]>> : k \in 1..n}
UEdges(f) == {{e[1], e[2]} : e \in DEdges(f)}

\* tables evaluated once: edges (undirected, directed) and corner set of every face
UTab(F) == TLCEval([i \in 1..Len(F) |-> UEdges(F[i])])
DTab(F) == TLCEval([i \in 1..Len(F) |-> DEdges(F[i])])
CTab(F) == TLCEval([i \in 1..Len(F) |-> Range(Corners(F[i]))])

AllUEdges(F) == UNION Range(UTab(F))
VVof(F, nv) == LET U == TLCEval(AllUEdges(F)) IN [v \in 0..nv-1 |-> UNION {e \ {v} : e \in {u \in U : v \in u}}]
VFof(F, nv) == LET C == CTab(F) IN [v \in 0..nv-1 |-> {i - 1 : i \in {j \in 1..Len(F) : v \in C[j]}}]
FFof(F) == LET U == UTab(F) IN
           [i \in 0..Len(F)-1 |-> {j - 1 : j \in {k \in 1..Len(F) : k # i+1 /\ U[k] \cap U[i+1] # {}}}]

\* how many faces use each edge: edges used by exactly one face are the boundary
OnceEdges(U) == LET n == Len(U)
                    below == TLCEval([i \in 1..n |-> UNION {U[j] : j \in 1..i-1}])
                    above == TLCEval([i \in 1..n |-> UNION {U[j] : j \in i+1..n}])
                IN UNION {U[i] \ (below[i] \cup above[i]) : i \in 1..n}
BoundaryUEdges(F) == OnceEdges(UTab(F))
Closed(F) == BoundaryUEdges(F) = {}
\* oriented against the face they belong to
BoundaryDEdges(F) == LET B == TLCEval(BoundaryUEdges(F))
   IN {<<d[2], d[1]>> : d \in {x \in UNION Range(DTab(F)) : {x[1], x[2]} \in B}}

\* well formed surfaces, the domain on which connectivity is defined:
\* proper corners; no edge shared by 3 faces; two faces meet in at most one edge's worth of corners
ProperFace(f) == Cardinality(Range(Corners(f))) = Len(Corners(f))
Conformal(F) ==
   LET U == UTab(F) C == CTab(F) n == Len(F)
       nedge == FoldLeft(LAMBDA acc, i : acc + Cardinality(U[i]), 0, [i \in 1..n |-> i])
       adj == TLCEval([i \in 1..n |-> {j \in i+1..n : Cardinality(C[i] \cap C[j]) >= 2}])
   IN /\ \A i \in 1..n : ProperFace(F[i])
      \* two faces with two common corners share exactly one edge, made of these corners
      /\ \A i \in 1..n : \A j \in adj[i] : LET s == C[i] \cap C[j] IN s \in U[i] /\ s \in U[j]
      \* hence an edge is in at most two faces iff sharings count edges once
      /\ \A i \in 1..n : \A j, k \in adj[i] : j < k => (C[i] \cap C[j]) # (C[i] \cap C[k])
\* every interior edge is run in both directions
Consistent(F) == LET D == DTab(F) IN
   Cardinality(UNION Range(D)) = FoldLeft(LAMBDA acc, d : acc + Cardinality(d), 0, D)
\* each boundary vertex starts exactly one boundary edge and ends exactly one
SimpleBoundary(F) == LET B == TLCEval(BoundaryDEdges(F)) IN
   /\ Cardinality({e[1] : e \in B}) = Cardinality(B)
   /\ Cardinality({e[2] : e \in B}) = Cardinality(B)
   /\ {e[1] : e \in B} = {e[2] : e \in B}

\* connected component of face i (1-based), faces adjacent through edges
RECURSIVE Flood(_, _, _)
Flood(U, seen, front) ==
  IF front = {} THEN seen
  ELSE LET E == TLCEval(UNION {U[i] : i \in front})
           nxt == TLCEval({j \in 1..Len(U) : j \notin seen /\ U[j] \cap E # {}})
       IN Flood(U, TLCEval(seen \cup nxt), nxt)
Component(F, i) == Flood(UTab(F), {i}, {i})
Connected(F) == Len(F) > 0 /\ Component(F, 1) = 1..Len(F)

\* the same corners in the same cyclic order (SameOri) or reversed
RotEq(c, d) == Len(c) = Len(d) /\ \E k \in 0..Len(c)-1 : \A i \in 1..Len(c) : d[i] = c[((i + k - 1) % Len(c)) + 1]
SameOri(f, g) == RotEq(Corners(f), Corners(g))
Flipped(f, g) == RotEq(Corners(Rev(f)), Corners(g))

\* loops, given as vertex sequences with the first vertex repeated at the end, cover exactly the directed edges E
LoopEdges(b) == {<<b[i], b[i+1]>> : i \in 1..Len(b)-1}
LoopsCover(bs, E) ==
   /\ \A i \in 1..Len(bs) : Len(bs[i]) >= 2 /\ bs[i][1] = bs[i][Len(bs[i])]
   /\ UNION {LoopEdges(bs[i]) : i \in 1..Len(bs)} = E
   /\ FoldLeft(LAMBDA acc, b : acc + Len(b) - 1, 0, bs) = Cardinality(E)

\* the loops of a simple boundary, as sets of directed edges
RECURSIVE Grow(_, _)
Grow(B, S) == LET more == {e \in B \ S : \E d \in S : d[2] = e[1] \/ d[1] = e[2]} IN IF more = {} THEN S ELSE Grow(B, TLCEval(S \cup more))
BoundaryLoops(F) == LET B == TLCEval(BoundaryDEdges(F)) IN {Grow(B, {e}) : e \in B}
\* twice the area of the projection of a loop along axis d
ShadowOf(V, E, d) == LET a == (d % 3) + 1 b == ((d + 1) % 3) + 1
                         one(e) == LET p == Pt(V, e[1]) q == Pt(V, e[2]) IN FMul(FSub(q[b], p[b]), FAdd(q[a], p[a]))
                     IN FAbs(FoldLeft(LAMBDA acc, e : FAdd(acc, one(e)), Zero, SetToSeq(E)))
Shadow(V, E) == FMax(ShadowOf(V, E, 1), FMax(ShadowOf(V, E, 2), ShadowOf(V, E, 3)))
(*************************** orientability *********************************)
\* propagate orientations over the faces; the mesh is orientable iff no contradiction appears
RECURSIVE Paint(_, _, _, _)
Paint(U, D, sgn, front) ==     \* sgn: face -> 1/-1/0 ; front: set of faces just painted
  LET n == Len(U) IN
  IF front = {} THEN
     LET rest == {i \in 1..n : sgn[i] = 0}
     IN IF rest = {} THEN sgn ELSE LET i == CHOOSE x \in rest : TRUE IN Paint(U, D, [sgn EXCEPT ![i] = 1], {i})
  ELSE LET E == TLCEval(UNION {U[i] : i \in front})
           new == TLCEval({j \in 1..n : sgn[j] = 0 /\ U[j] \cap E # {}})
           col(j) == LET i == CHOOSE x \in front : U[x] \cap U[j] # {}
                     IN IF D[i] \cap D[j] = {} THEN sgn[i] ELSE -sgn[i]
       IN Paint(U, D, TLCEval([j \in 1..n |-> IF j \in new THEN col(j) ELSE sgn[j]]), new)
Orientable(F) ==
  LET s == Paint(UTab(F), DTab(F), [i \in 1..Len(F) |-> 0], {})
      G == TLCEval([i \in 1..Len(F) |-> IF s[i] = 1 THEN F[i] ELSE Rev(F[i])])
  IN Consistent(G)
=============================================================================
