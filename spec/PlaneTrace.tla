---------------------------- MODULE PlaneTrace ----------------------------
(***************************************************************************)
(* Trace validation of Plane.  State: for each plane the normal and scalar *)
(* it must have.  Each operation's effect on them is defined here; every   *)
(* answer must be the one of the plane n.x = c.                            *)
(***************************************************************************)
EXTENDS Vec, Clauses
Trace == JsonDeserialize(TraceFile)
VARIABLES l, pl, cov
vars == <<l, pl, cov>>

Rel(k, x) == FMul(Tiny(k), x)
\* rotation by the vector (tx, ty, 0)
RotV(tx, ty) == LET t == FSqrt(FAdd(FMul(tx, tx), FMul(ty, ty)))
                IN IF t = Zero THEN MId ELSE RotAxis(<<FDiv(tx, t), FDiv(ty, t), Zero>>, t)
Ez == <<Zero, Zero, One>>
StateOf(e) == LET p == IF e.op = "new" THEN <<>> ELSE pl[e.p] IN
   CASE e.op = "new" -> [n |-> Unit(e.n), c |-> e.c]
     [] e.op = "setn" -> [p EXCEPT !.n = Unit(e.n)]
     [] e.op = "setc" -> [p EXCEPT !.c = e.c]
     [] e.op = "rot" -> [p EXCEPT !.n = MVec(RotV(e.x, e.y), p.n)]
     [] e.op = "ang" -> [p EXCEPT !.n = MVec(RotV(e.x, e.y), Ez)]
     [] e.op = "par" -> LET m == MVec(RotV(e.x, e.y), p.n) IN [n |-> m, c |-> FAdd(FMul(p.c, Dot(m, p.n)), e.c)]
     [] e.op = "flip" -> [p EXCEPT !.n = VNeg(p.n)]
     [] OTHER -> p
\* the scalar after set_plane_parameters is only defined for an axis of rotation orthogonal to the normal
ScalarKnown(e) == e.op # "par" \/ LET p == pl[e.p] IN FLe(FAbs(FAdd(FMul(e.x, p.n[1]), FMul(e.y, p.n[2]))), Tiny(10))
Adopt(e) == [n |-> Unit(e.on), c |-> e.oc]     \* rounding is not accumulated by the specification
OpCl(e) ==
   IF e.exc # "" THEN Cl("no-exception", FALSE)
   ELSE LET s == StateOf(e) IN
      Cl("plane-normal", VIsNum(e.on) /\ VClose(e.on, s.n, Tiny(11)))
      \o Cl("plane-normal-unit", VIsNum(e.on) /\ Close(Norm(e.on), One, Tiny(12)))
      \o ClIf("plane-scalar", ScalarKnown(e), Close(e.oc, s.c, FAdd(Tiny(12), Rel(12, FAbs(s.c)))))
      \o Cl("plane-arguments-unchanged", Len(e.chg) = 0)
      \o ClIf("plane-earlier-normal-unchanged", Has(e, "held"), Len(e.held) = 0)

Scl(s, P) == FMaxSeq(<<One, FAbs(s.c)>> \o [i \in 1..Len(P) |-> VMaxAbs(P[i])])
OnSegment(p, a, b, tol) ==
   LET d == VSub(b, a)
       t == IF Norm2(d) = Zero THEN Zero ELSE FMax(Zero, FMin(One, FDiv(Dot(VSub(p, a), d), Norm2(d))))
   IN VClose(p, VAdd(a, VScale(t, d)), tol)
QCl(e) ==
   LET s == pl[e.p]
       L == Scl(s, e.P)
       tol == Rel(11, L)
       dist(p) == FSub(Dot(s.n, p), s.c)
   IN Cl("plane-arguments-unchanged", Len(e.chg) = 0) \o
      (IF e.q # "edge" /\ e.exc # "" THEN Cl("no-exception", FALSE)
       ELSE CASE e.q = "angles" -> Cl("plane-angles-rebuild-normal", IsNum(e.x) /\ IsNum(e.y) /\ VClose(MVec(RotV(e.x, e.y), Ez), s.n, Tiny(11)))
         [] e.q = "dist" -> Cl("plane-distance", Len(e.r) = Len(e.P) /\ \A i \in 1..Len(e.P) : Close(e.r[i], dist(e.P[i]), tol))
         [] e.q = "proj" -> Cl("plane-projection", Len(e.r) = Len(e.P) /\ \A i \in 1..Len(e.P) :
                                VClose(e.r[i], VSub(e.P[i], VScale(dist(e.P[i]), s.n)), tol))
         [] e.q = "frame" -> Cl("plane-frame-third-is-distance", Len(e.r) = Len(e.P) /\ \A i \in 1..Len(e.P) :
                                VIsNum(e.r[i]) /\ Close(e.r[i][3], dist(e.P[i]), tol))
                             \o ClIf("plane-frame-isometry", \A i \in 1..Len(e.r) : VIsNum(e.r[i]),
                                \A i, j \in 1..Len(e.r) : i < j => Close(Norm(VSub(e.r[i], e.r[j])), Norm(VSub(e.P[i], e.P[j])), Rel(9, L)))
                             \o ClIf("plane-frame-direct", Len(e.P) >= 4 /\ \A i \in 1..Len(e.r) : VIsNum(e.r[i]),
                                LET v(X) == Det(<<VSub(X[2], X[1]), VSub(X[3], X[1]), VSub(X[4], X[1])>>)
                                IN Close(v(e.r), v(e.P), Rel(9, FMul(L, FMul(L, L)))))
         [] e.q = "origin" -> Cl("plane-origin", VClose(e.r[1], VScale(s.c, s.n), tol))
         [] e.q = "edge" ->
              LET a == dist(e.P[1]) b == dist(e.P[2])
                  apart == (FLt(tol, a) /\ FLt(tol, b)) \/ (FLt(a, FNeg(tol)) /\ FLt(b, FNeg(tol)))
                  crosses == (FLt(a, FNeg(tol)) /\ FLt(tol, b)) \/ (FLt(b, FNeg(tol)) /\ FLt(tol, a))
              IN ClIf("plane-edge-refused", apart, e.exct = "RuntimeError")
                 \o ClIf("plane-edge-accepted", crosses, e.exc = "")
                 \o ClIf("plane-edge-refused-clearly", e.exc # "", e.exct = "RuntimeError")
                 \o ClIf("plane-edge-on-plane", e.exc = "", VIsNum(e.r[1]) /\ FLe(FAbs(dist(e.r[1])), FMul(tol, FInt(4))))
                 \o ClIf("plane-edge-on-edge", e.exc = "", VIsNum(e.r[1]) /\ OnSegment(e.r[1], e.P[1], e.P[2], FMul(tol, FInt(4)))))
EventCl(e) ==
   CASE e.o = "start" -> NoClause
     [] e.o = "op" -> OpCl(e)
     [] e.o = "q" -> IF e.p \in DOMAIN pl THEN QCl(e) ELSE NoClause
     [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ pl = [x \in {} |-> x] /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ pl' = IF e.o = "start" THEN [x \in {} |-> x]
                       ELSE IF e.o = "op" /\ e.exc = "" /\ VIsNum(e.on) /\ e.on # VZero THEN [x \in (DOMAIN pl) \cup {e.p} |-> IF x = e.p THEN Adopt(e) ELSE pl[x]]
                       ELSE pl
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
