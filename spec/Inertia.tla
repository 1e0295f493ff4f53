------------------------------ MODULE Inertia ------------------------------
(***************************************************************************)
(* Design model of the reduction of inertias: a body and the independent   *)
(* objects taken at its centre of gravity, moved from point to point in    *)
(* any order.  Exact integers.  Whatever the path, an object holds the     *)
(* inertia at the mass centre plus the parallel-axis term of its point,    *)
(* and no object's moves are felt by another.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Rule      \* Rule = "design", or "base" (the pinned commit)
Pts == {<<0,0,0>>, <<1,-2,3>>, <<4,0,-1>>}
G == <<1, 1, 0>>
M == 2
D3(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Hu(p) == LET d == <<G[1]-p[1], G[2]-p[2], G[3]-p[3]>>
         IN [i \in 1..3 |-> [j \in 1..3 |-> M * ((IF i = j THEN D3(d, d) ELSE 0) - d[i]*d[j])]]
MA(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][j] + b[i][j]]]
MS(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][j] - b[i][j]]]
IG == << <<7, -1, 2>>, <<-1, 9, 0>>, <<2, 0, 5>> >>
VARIABLES obj, hist      \* objects: sequence of [p, i]
vars == <<obj, hist>>
At(p) == MA(IG, Hu(p))
Init == \E p \in Pts \cup {G} : obj = << [p |-> p, i |-> At(p)] >> /\ hist = << [op |-> "new", p |-> p] >>
\* the base rule subtracted nothing: it added the transport of the old point again
Move(o, p) == IF Rule = "design" THEN [p |-> p, i |-> MA(MS(o.i, Hu(o.p)), Hu(p))]
              ELSE [p |-> p, i |-> MA(MA(o.i, Hu(o.p)), Hu(p))]
Reduce(k, p) == obj' = [obj EXCEPT ![k] = Move(@, p)] /\ hist' = Append(hist, [op |-> "reduce", k |-> k, p |-> p])
Shift(k) == obj' = [obj EXCEPT ![k] = Move(@, G)] /\ hist' = Append(hist, [op |-> "shift", k |-> k])
AtCog(k) == Len(obj) < 3 /\ obj' = Append(obj, Move(obj[k], G)) /\ hist' = Append(hist, [op |-> "atcog", k |-> k])
Next == Len(hist) <= Depth /\ \E k \in 1..Len(obj) : Shift(k) \/ AtCog(k) \/ \E p \in Pts : Reduce(k, p)
PathIndependent == \A k \in 1..Len(obj) : obj[k].i = At(obj[k].p)
Symmetric == \A k \in 1..Len(obj) : \A i, j \in 1..3 : obj[k].i[i][j] = obj[k].i[j][i]
LeastAtCog == \A k \in 1..Len(obj) : \A i \in 1..3 : obj[k].i[i][i] >= IG[i][i]
Emit == Len(hist) = Depth + 1 => PrintT("SCN " \o ToJson(hist))
=============================================================================
