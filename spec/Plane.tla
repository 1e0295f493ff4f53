------------------------------- MODULE Plane -------------------------------
(***************************************************************************)
(* Design model of a plane n.x = c and of the frame kept with it, on the   *)
(* attitudes where floating point has its special cases: normals along the *)
(* axes, rotations by multiples of a quarter turn (all integers, exact).   *)
(* A plane is built, then modified by any sequence of operations; whatever *)
(* the sequence, the frame's third axis is the normal, the angles reported *)
(* for the normal rebuild it and the third coordinate in the frame is the  *)
(* signed distance.  Every sequence is emitted and performed on the code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Matrix,    \* "design" or "base" (the pinned commit: setting the normal left the frame behind)
          Depth
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
RX(k) == << <<1, 0, 0>>, <<0, Cos4(k), -Sin4(k)>>, <<0, Sin4(k), Cos4(k)>> >>
RY(k) == << <<Cos4(k), 0, Sin4(k)>>, <<0, 1, 0>>, <<-Sin4(k), 0, Cos4(k)>> >>
\* rotation vector (x, y, 0) in quarter turns, one of them zero
R(x, y) == IF y = 0 THEN RX(x) ELSE RY(y)
D3(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Ap(m, p) == <<D3(m[1], p), D3(m[2], p), D3(m[3], p)>>
Tr(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Mu(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> D3(a[i], Tr(b)[j])]]
Neg(p) == <<-p[1], -p[2], -p[3]>>
Ez == <<0, 0, 1>>
Axes == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
\* the angles (quarter turns) reported for a normal
Ang(n) == IF n = Ez THEN <<0, 0>> ELSE IF n = Neg(Ez) THEN <<2, 0>> ELSE <<-n[2], n[1]>>
Turns == {<<1,0>>, <<-1,0>>, <<2,0>>, <<0,1>>, <<0,-1>>, <<0,2>>, <<0,0>>}
Ops == {[op |-> "setn", n |-> a] : a \in Axes}
       \cup {[op |-> o, t |-> t] : o \in {"rot", "ang", "par"}, t \in Turns}
       \cup {[op |-> "flip"], [op |-> "setc"]}

VARIABLES n, frame, c, hist
vars == <<n, frame, c, hist>>
FrameOf(m) == R(Ang(m)[1], Ang(m)[2])
Init == \E a \in Axes : n = a /\ frame = FrameOf(a) /\ c = 1 /\ hist = <<[op |-> "new", n |-> a]>>
To(m, f) == n' = m /\ frame' = IF Matrix = "base" THEN f ELSE FrameOf(m)
Do(o) ==
  /\ hist' = Append(hist, o)
  /\ CASE o.op = "setn" -> To(o.n, frame) /\ c' = c
       [] o.op = "rot" -> LET r == R(o.t[1], o.t[2]) IN To(Ap(r, n), Mu(r, frame)) /\ c' = c
       [] o.op = "ang" -> LET r == R(o.t[1], o.t[2]) IN To(Ap(r, Ez), r) /\ c' = c
       [] o.op = "par" -> LET r == R(o.t[1], o.t[2]) IN To(Ap(r, n), Mu(r, frame))
                          /\ c' = c * Cos4(IF o.t[1] # 0 THEN o.t[1] ELSE o.t[2]) + 1
       [] o.op = "flip" -> To(Neg(n), FrameOf(Neg(n))) /\ c' = c
       [] o.op = "setc" -> To(n, frame) /\ c' = -2
Next == Len(hist) <= Depth /\ \E o \in Ops : Do(o)
Pts == {<<x, y, z>> : x, y, z \in {-1, 0, 2}}
Local(p) == LET q == Ap(Tr(frame), p) IN <<q[1], q[2], q[3] - c>>
UnitNormal == D3(n, n) = 1
FrameFollows == Ap(frame, Ez) = n
AnglesRebuild == Ap(R(Ang(n)[1], Ang(n)[2]), Ez) = n
LocalIsDistance == \A p \in Pts : Local(p)[3] = D3(n, p) - c
Isometry == Mu(frame, Tr(frame)) = <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>
Emit == Len(hist) = Depth + 1 => PrintT("SCN " \o ToJson(hist))
=============================================================================
