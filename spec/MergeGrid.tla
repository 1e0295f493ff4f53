----------------------------- MODULE MergeGrid -----------------------------
(***************************************************************************)
(* Design model of merging: one axis after the other, sort, then cut the   *)
(* sorted list where two consecutive values differ by more than the        *)
(* tolerance (2 units); vertices are one iff no axis separates them.       *)
(* Coordinates are enumerated on a grid of half tolerances so that every   *)
(* pattern of "equal / within / beyond" occurs, chains included.  The      *)
(* contract of the library is weaker than chaining: identical merge,       *)
(* nothing farther than the tolerance is joined.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NV
Tol == 2
X == {0, 1, 3, 6}
Y == {0, 5}
VARIABLES x, y, z
vars == <<x, y, z>>
Init == /\ x \in [1..NV -> X] /\ y \in [1..NV -> Y] /\ z \in {[i \in 1..NV |-> 0], [i \in 1..NV |-> IF i = 1 THEN 6 ELSE 0]}
        /\ x[1] <= x[2]
Next == UNCHANGED vars
Abs(a) == IF a < 0 THEN -a ELSE a
Near(i, j) == Abs(x[i]-x[j]) <= Tol /\ Abs(y[i]-y[j]) <= Tol /\ Abs(z[i]-z[j]) <= Tol
Same(i, j) == x[i] = x[j] /\ y[i] = y[j] /\ z[i] = z[j]
\* greedy grouping of one axis: sorted values, a new group starts beyond the tolerance from the group's first value
RECURSIVE Starts(_, _)
Starts(vals, cur) == LET far == {v \in vals : v > cur + Tol} IN
   IF far = {} THEN {cur} ELSE {cur} \cup Starts(far, CHOOSE v \in far : \A w \in far : v <= w)
Min(S) == CHOOSE v \in S : \A w \in S : v <= w
Max(S) == CHOOSE v \in S : \A w \in S : v >= w
Grp(f, i) == LET vals == {f[k] : k \in 1..NV} IN Max({s \in Starts(vals, Min(vals)) : s <= f[i]})
Joined(i, j) == Grp(x, i) = Grp(x, j) /\ Grp(y, i) = Grp(y, j) /\ Grp(z, i) = Grp(z, j)
NeverFar == \A i, j \in 1..NV : Joined(i, j) => Near(i, j)
IdenticalMerge == \A i, j \in 1..NV : Same(i, j) => Joined(i, j)
Emit == PrintT("SCN " \o ToJson([x |-> x, y |-> y, z |-> z]))
=============================================================================
