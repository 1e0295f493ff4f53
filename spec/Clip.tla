------------------------------- MODULE Clip -------------------------------
(***************************************************************************)
(* Design model of clipping: every way a triangle or a quadrangle can meet *)
(* the plane (labels of its corners), alone or next to a second face       *)
(* sharing an edge.  Checked: the clipped face keeps every corner below in *)
(* order, keeps nothing above, and the boundary edges of two neighbours    *)
(* chain through the key they share.  Every pattern is emitted and         *)
(* realised on the real code.                                              *)
(***************************************************************************)
EXTENDS ClipGeom, Json
Lab == {"a", "o", "b"}
VARIABLES kind, lab      \* labels of vertices 0..
vars == <<kind, lab>>
\* faces: tri 0,1,2 ; quad 0,1,2,3 ; and pairs sharing the edge 0-1 run backwards by the second face
Whole == CASE kind = "tri" -> << <<0,1,2,0>> >>
           [] kind = "quad" -> << <<0,1,2,3>> >>
           [] kind = "tritri" -> << <<0,1,2,0>>, <<1,0,3,1>> >>
           [] kind = "triquad" -> << <<0,1,2,0>>, <<1,0,3,4>> >>
           [] kind = "quadquad" -> << <<0,1,2,3>>, <<1,0,4,5>> >>
Faces == FlattenSeq([i \in 1..Len(Whole) |-> Pieces(Whole[i], lab)])     \* plane faces or not
NVs == [tri |-> 3, quad |-> 4, tritri |-> 4, triquad |-> 5, quadquad |-> 6]
Init == /\ kind \in DOMAIN NVs
        /\ lab \in [0..NVs[kind]-1 -> Lab]
Next == UNCHANGED vars
P == [i \in 1..Len(Faces) |-> ClipPoly(Faces[i], lab)]
E == WaterEdges(P, lab)
NothingAbove == \A i \in 1..Len(P) : \A k \in Range(P[i]) : IsCut(k) \/ lab[k[1]] # "a"
\* corners below are kept in the cyclic order of the face
KeepsBelow == \A i \in 1..Len(P) :
   LET below == SelectSeq(Corners(Faces[i]), LAMBDA v : lab[v] = "b")
       kept == SelectSeq(P[i], LAMBDA k : ~IsCut(k) /\ lab[k[1]] = "b")
   IN kept = [j \in 1..Len(below) |-> VKey(below[j])]
\* a crossing face contributes exactly one boundary edge
OneEdge == \A i \in 1..Len(P) :
   (Count(Faces[i], lab, "a") > 0 /\ Count(Faces[i], lab, "b") > 0) => Cardinality(PlaneEdges(P[i], lab)) = 1
\* a cut of the shared edge is the end of one boundary edge and the start of the other
Chains == (Len(Whole) = 2 /\ Opp(lab[0], lab[1])) =>
   LET k == EKey(0, 1) IN Degree(E, k, 1) = 1 /\ Degree(E, k, 2) = 1
AtLeastTriangle == \A i \in 1..Len(P) : P[i] = <<>> \/ (Len(P[i]) >= 3 /\ Len(P[i]) <= 5)
Emit == PrintT("SCN " \o ToJson([kind |-> kind, warped |-> \E i \in 1..Len(Whole) : ~SimpleFace(Whole[i], lab), lab |-> [i \in 1..NVs[kind] |-> lab[i-1]]]))
=============================================================================
