-------------------------------- MODULE Rot --------------------------------
(***************************************************************************)
(* Design model of the conversions between rotation representations, on   *)
(* the rotations that send axes to axes: quarter turns, half turns and     *)
(* both gimbal locks, where every special case of the formulas is.  All    *)
(* quantities are integers (angles in quarter turns).  A chain starts from *)
(* any Cardan triple and converts in any order; the rotation it stands for *)
(* never changes.  Cardan angles are recovered as the library documents:   *)
(* fixed axes x, y, z, and roll zero at the gimbal lock.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
RX(k) == << <<1, 0, 0>>, <<0, Cos4(k), -Sin4(k)>>, <<0, Sin4(k), Cos4(k)>> >>
RY(k) == << <<Cos4(k), 0, Sin4(k)>>, <<0, 1, 0>>, <<-Sin4(k), 0, Cos4(k)>> >>
RZ(k) == << <<Cos4(k), -Sin4(k), 0>>, <<Sin4(k), Cos4(k), 0>>, <<0, 0, 1>> >>
D3(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Tr(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Mu(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> D3(a[i], Tr(b)[j])]]
Mat(t) == Mu(RZ(t[3]), Mu(RY(t[2]), RX(t[1])))
Atan(y, x) == CHOOSE k \in {0, 1, 2, -1} : <<Cos4(k), Sin4(k)>> = <<x, y>>
Cardan(m) ==
   IF m[3][1] = -1 THEN <<0, 1, -Atan(-m[2][3], m[2][2])>>
   ELSE IF m[3][1] = 1 THEN <<0, -1, Atan(-m[2][3], m[2][2])>>
   ELSE LET psi == Atan(m[2][1], m[1][1])
        IN <<Atan(Sin4(psi)*m[1][3] - Cos4(psi)*m[2][3], Cos4(psi)*m[2][2] - Sin4(psi)*m[1][2]), 0, psi>>
\* twice the cosine of the angle plus one is the trace; four times the squares of the unit quaternion
Trace(m) == m[1][1] + m[2][2] + m[3][3]
Quat4(m) == << 1 + Trace(m), 1 + m[1][1] - m[2][2] - m[3][3], 1 - m[1][1] + m[2][2] - m[3][3], 1 - m[1][1] - m[2][2] + m[3][3] >>
Reps == {"quat", "mat", "aa", "cardan"}

VARIABLES start, rot, car, chain
vars == <<start, rot, car, chain>>
Init == /\ start \in [1..3 -> {0, 1, 2, -1}]
        /\ rot = Mat(start) /\ car = start /\ chain = <<"cardan">>
Conv(r) == /\ r # chain[Len(chain)]
           /\ chain' = Append(chain, r)
           /\ car' = IF r = "cardan" THEN Cardan(rot) ELSE car
           /\ rot' = IF r = "cardan" THEN Mat(Cardan(rot)) ELSE rot
           /\ UNCHANGED start
Next == Len(chain) <= Depth /\ \E r \in Reps : Conv(r)
SameRotation == rot = Mat(start)
CardanStandsForIt == chain[Len(chain)] = "cardan" => Mat(car) = Mat(start)
Proper == Mu(rot, Tr(rot)) = <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>
UnitQuaternion == LET q == Quat4(rot) IN q[1] + q[2] + q[3] + q[4] = 4 /\ \A i \in 1..4 : q[i] >= 0
Emit == Len(chain) = Depth + 1 => PrintT("SCN " \o ToJson([start |-> start, chain |-> chain]))
=============================================================================
