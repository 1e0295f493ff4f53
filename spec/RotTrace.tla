----------------------------- MODULE RotTrace -----------------------------
(***************************************************************************)
(* Trace validation of the conversions between rotation representations.   *)
(* State: the rotation held.  A conversion must give a representation of   *)
(* the rotation represented by its argument.                               *)
(***************************************************************************)
EXTENDS Vec, Clauses
Trace == JsonDeserialize(TraceFile)
VARIABLES l, rot, cov
vars == <<l, rot, cov>>

OfQuat(q) == LET v == <<q[2], q[3], q[4]>>
                 two == FInt(2)
             IN MAdd(MScale(FSub(FMul(q[1], q[1]), Norm2(v)), MId),
                     MAdd(MScale(two, Outer(v, v)), MScale(FMul(two, q[1]), Skew(v))))
RotOf(r, x) == CASE r = "quat" -> OfQuat(x)
                 [] r = "mat" -> x
                 [] r = "aa" -> RotAxis(<<x[1], x[2], x[3]>>, x[4])
                 [] r = "cardan" -> MMul(RotZ(x[3]), MMul(RotY(x[2]), RotX(x[1])))
Num(r, x) == IF r = "mat" THEN Len(x) = 3 /\ \A i \in 1..3 : Len(x[i]) = 3 /\ VIsNum(x[i])
             ELSE Len(x) = (IF r = "cardan" THEN 3 ELSE 4) /\ \A i \in 1..Len(x) : IsNum(x[i])
N4(q) == FSqrt(FAdd(FMul(q[1], q[1]), Norm2(<<q[2], q[3], q[4]>>)))
\* the pitch of a rotation this close to the gimbal lock is only known to the square root of the precision
Locked(m) == FLt(FSub(One, Tiny(8)), FAbs(m[3][1]))
ConvCl(e) ==
   LET m == RotOf(e.from, e.x)
       num == e.exc = "" /\ Num(e.to, e.y)
       tol == IF e.to = "cardan" /\ Locked(m) THEN FMulI(Tiny(8), 5) ELSE Tiny(12)
   IN Cl("rotation-converted", num)
      \o ClIf("rotation-same", num, MClose(RotOf(e.to, e.y), m, tol))
      \o ClIf("rotation-held-along-the-chain", num, MClose(RotOf(e.to, e.y), rot, Tiny(6)))
      \o ClIf("rotation-quaternion-unit", num /\ e.to = "quat", Close(N4(e.y), One, Tiny(12)))
      \o ClIf("rotation-axis-unit", num /\ e.to = "aa", Close(Norm(<<e.y[1], e.y[2], e.y[3]>>), One, Tiny(12)))
      \o ClIf("rotation-matrix-proper", num /\ e.to = "mat", IsRot(e.y, Tiny(12)))
      \o Cl("rotation-arguments-unchanged", Len(e.chg) = 0)
EventCl(e) == CASE e.o = "start" -> NoClause
                [] e.o = "given" -> NoClause
                [] e.o = "conv" -> ConvCl(e)
                [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ rot = MId /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ rot' = IF e.o = "given" THEN RotOf(e.to, e.y) ELSE rot
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
