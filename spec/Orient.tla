------------------------------- MODULE Orient -------------------------------
(***************************************************************************)
(* Design model of orientation healing: a flood over adjacent faces        *)
(* reverses those that disagree with the face they are reached from; then, *)
(* if the surface is closed, everything is reversed when the enclosed      *)
(* volume is negative.  All complexes, all sets of initially reversed      *)
(* faces and all flooding orders are explored; every (complex, reversed    *)
(* set) is emitted and replayed on the real code.                          *)
(* Faces of the complexes are outward (consistent) as written here.        *)
(***************************************************************************)
EXTENDS MeshTopo, Json

T(a, b, c) == <<a, b, c, a>>
Complexes ==
  [tetra |-> <<T(0,2,1), T(0,1,3), T(1,2,3), T(0,3,2)>>,
   pyramid |-> << <<0,3,2,1>>, T(0,1,4), T(1,2,4), T(2,3,4), T(3,0,4)>>,
   cube |-> << <<0,2,3,1>>, <<4,5,7,6>>, <<0,1,5,4>>, <<2,6,7,3>>, <<0,4,6,2>>, <<1,3,7,5>> >>,
   octa |-> << T(0,2,4), T(2,1,4), T(1,3,4), T(3,0,4), T(2,0,5), T(1,2,5), T(3,1,5), T(0,3,5) >>,
   strip |-> << <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>> >>,
   patch |-> << <<0,1,4,3>>, <<1,2,5,4>>, <<3,4,7,6>>, <<4,5,8,7>> >>,
   two |-> <<T(0,2,1), T(0,1,3), T(1,2,3), T(0,3,2), T(4,6,5), T(4,5,7), T(5,6,7), T(4,7,6)>>]
Pieces(c) == IF c = "two" THEN 2 ELSE 1

VARIABLES c, flip, rev, seen, stack, phase
vars == <<c, flip, rev, seen, stack, phase>>
F0 == Complexes[c]
n == Len(F0)
FF == FFof(F0)                                        \* adjacency does not depend on orientation
Face(i) == IF (i \in flip) # (i \in rev) THEN Rev(F0[i]) ELSE F0[i]
Faces == [i \in 1..n |-> Face(i)]
\* two adjacent faces disagree when they run a shared edge in the same direction
Disagree(i, j) == DEdges(Face(i)) \cap DEdges(Face(j)) # {}
CurFlipped == {i \in 1..n : (i \in flip) # (i \in rev)}

Init == /\ c \in DOMAIN Complexes /\ flip \in SUBSET (1..Len(Complexes[c]))
        /\ (c = "two" => Cardinality(flip \cap (1..4)) <= 2)
        /\ rev = {} /\ seen = {} /\ stack = {} /\ phase = "flood"
Seed == /\ phase = "flood" /\ stack = {} /\ seen # 1..n
        /\ LET i == CHOOSE x \in (1..n) \ seen : \A y \in (1..n) \ seen : x <= y
           IN seen' = seen \cup {i} /\ stack' = {i}
        /\ UNCHANGED <<c, flip, rev, phase>>
Pop == /\ phase = "flood"
       /\ \E i \in stack :
            LET new == {j + 1 : j \in FF[i-1]} \ seen
                bad == {j \in new : Disagree(i, j)}
            IN /\ seen' = seen \cup new
               /\ rev' = (rev \ bad) \cup (bad \ rev)
               /\ stack' = (stack \ {i}) \cup new
       /\ UNCHANGED <<c, flip, phase>>
\* outward faces are the ones written in Complexes: the volume is positive iff nothing is reversed
Outward == /\ phase = "flood" /\ stack = {} /\ seen = 1..n
           /\ rev' = IF Closed(F0) /\ Pieces(c) = 1 /\ CurFlipped # {} THEN (1..n) \ rev ELSE rev
           /\ phase' = "done"
           /\ UNCHANGED <<c, flip, seen, stack>>
Next == Seed \/ Pop \/ Outward
Consistency == phase = "done" => Consistent(Faces)
OutwardWhenClosed == phase = "done" /\ Closed(F0) /\ Pieces(c) = 1 => Faces = F0
OnlyReverses == \A i \in 1..n : SameOri(F0[i], Face(i)) \/ Flipped(F0[i], Face(i))
EmitInit == (seen = {} /\ phase = "flood") => PrintT("SCN " \o ToJson([c |-> c, flip |-> SetToSeq(flip)]))
=============================================================================
