------------------------------ MODULE Patches ------------------------------
(***************************************************************************)
(* Every sub-surface of small complexes, with some faces turned over: the  *)
(* algebra of boundaries is checked on the specification's own definitions *)
(* and every case is replayed on the real connectivity code.               *)
(***************************************************************************)
EXTENDS MeshTopo, Json
O == INSTANCE Orient WITH c <- "tetra", flip <- {}, rev <- {}, seen <- {}, stack <- {}, phase <- ""
Names == {"tetra", "pyramid", "cube", "octa", "patch"}
VARIABLES c, keep, flip
vars == <<c, keep, flip>>
Whole == O!Complexes[c]
Init == /\ c \in Names
        /\ keep \in (SUBSET (1..Len(O!Complexes[c]))) \ {{}}
        /\ flip \in {f \in SUBSET keep : Cardinality(f) <= 1}
        /\ (Len(O!Complexes[c]) > 6 => flip = {} \/ Cardinality(keep) = 7)
Next == UNCHANGED vars
Ids == SetToSeq(keep)
F == [k \in 1..Len(Ids) |-> IF Ids[k] \in flip THEN Rev(Whole[Ids[k]]) ELSE Whole[Ids[k]]]
\* closedness does not depend on orientation
ClosedIffWhole == c # "patch" => (Closed(F) <=> keep = 1..Len(Whole))
\* the boundary of a consistent surface is a cycle: as many edges leave a vertex as enter it
BoundaryIsCycle == Consistent(F) => LET B == BoundaryDEdges(F) IN
    \A v \in {e[1] : e \in B} \cup {e[2] : e \in B} :
       Cardinality({e \in B : e[1] = v}) = Cardinality({e \in B : e[2] = v})
\* the boundaries of complementary parts of a closed surface are opposite
Complement == (c # "patch" /\ flip = {} /\ keep # 1..Len(Whole)) =>
    LET rest == SetToSeq((1..Len(Whole)) \ keep)
        G == [k \in 1..Len(rest) |-> Whole[rest[k]]]
    IN BoundaryDEdges(G) = {<<e[2], e[1]>> : e \in BoundaryDEdges(F)}
ConformalAlways == Conformal(F)
Emit == PrintT("SCN " \o ToJson([c |-> c, keep |-> SetToSeq(keep), flip |-> SetToSeq(flip)]))
=============================================================================
