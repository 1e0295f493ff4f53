--------------------------- MODULE InertiaTrace ---------------------------
(***************************************************************************)
(* Trace validation of RigidBodyInertia and of the closed-form solids.     *)
(* State: for each object the body it describes (mass, mass centre,        *)
(* inertia there), the centre of gravity it was given and the point it is  *)
(* reduced at.                                                             *)
(***************************************************************************)
EXTENDS SolidsDef, Clauses
Trace == JsonDeserialize(TraceFile)
VARIABLES l, ob, cov
vars == <<l, ob, cov>>
Rel(k, x) == FMul(Tiny(k), x)

Transport(m, d) == MScale(m, Huygens(d))
Expected(s) == MAdd(s.ig, Transport(s.m, VSub(s.g, s.p)))
\* sizes that bound the rounding errors so far
Big(s) == FAdd(s.big, FMul(s.m, FAdd(Norm2(VSub(s.g, s.p)), FAdd(Norm2(s.g), Norm2(s.p)))))
MatOf(e) == << <<e.xx, FNeg(e.xy), FNeg(e.xz)>>, <<FNeg(e.xy), e.yy, FNeg(e.yz)>>, <<FNeg(e.xz), FNeg(e.yz), e.zz>> >>
New(e) == LET p == IF Has(e, "p") THEN e.p ELSE e.g
              i == MatOf(e)
              s == [m |-> e.m, g |-> e.g, cog |-> e.g, p |-> p, ig |-> MSub(i, Transport(e.m, VSub(e.g, p))), big |-> MMaxAbs(i)]
          IN [s EXCEPT !.big = FMulI(Big(s), 2)]
At(s, p) == LET t == [s EXCEPT !.p = p] IN [t EXCEPT !.big = FAdd(Big(s), Big(t))]
NextOb(e) == LET set(k, s) == [x \in (DOMAIN ob) \cup {k} |-> IF x = k THEN s ELSE ob[x]] IN
   IF e.exc # "" THEN ob
   ELSE CASE e.op = "new" -> set(e.k, New(e))
          [] e.op = "mesh" -> set(e.k, New(e))
          [] e.op = "reduce" -> set(e.k, At(ob[e.k], e.p))
          [] e.op = "shift" -> set(e.k, At(ob[e.k], ob[e.k].cog))
          [] e.op = "atcog" -> set(e.j, At(ob[e.k], ob[e.k].cog))
          [] e.op = "setcog" -> set(e.k, [ob[e.k] EXCEPT !.cog = e.g])
          [] OTHER -> ob
\* what an object answers, after any event on any object
SeenCl(s, o) ==
   LET tol == Rel(10, Big(s))
   IN Cl("inertia-mass", Close(o.m, s.m, Rel(13, FAbs(s.m))))
      \o Cl("inertia-gravity-center", VClose(o.cog, s.cog, Rel(13, FAdd(One, VMaxAbs(s.cog)))))
      \o Cl("inertia-reduction-point", VClose(o.p, s.p, Rel(13, FAdd(One, VMaxAbs(s.p)))))
      \o Cl("inertia-matrix", \A i \in 1..3 : VIsNum(o.i[i]) /\ VClose(o.i[i], Expected(s)[i], tol))
      \o Cl("inertia-symmetric", \A i, j \in 1..3 : o.i[i][j] = o.i[j][i])
      \o Cl("inertia-moments-and-products", o.f = <<o.i[1][1], o.i[2][2], o.i[3][3], FNeg(o.i[2][3]), FNeg(o.i[1][3]), FNeg(o.i[1][2])>>)
      \o Cl("inertia-is-at-cog", LET d == VMaxAbs(VSub(s.p, s.cog)) IN IF d = Zero THEN o.at ELSE FLt(Rel(12, FAdd(One, VMaxAbs(s.p))), d) => ~o.at)
OpCl(e) ==
   IF e.exc # "" THEN Cl("no-exception", FALSE)
   ELSE LET nx == NextOb(e) IN
        Cl("inertia-arguments-unchanged", Len(e.chg) = 0)
        \o FlattenSeq([i \in 1..Len(e.all) |-> IF e.all[i].k \in DOMAIN nx THEN SeenCl(nx[e.all[i].k], e.all[i]) ELSE Cl("inertia-unknown-object", FALSE)])
SolidCl(e) ==
   IF e.exc # "" THEN Cl("no-exception", FALSE)
   ELSE LET b == BodyOf(e.shape, e.a)
            k == IF e.shape \in Shells THEN FMul(e.rho, e.th) ELSE e.rho
            m == FMul(b.vol, k)
            j == Moments(b)
            ok(x, y) == Close(x, y, Rel(11, FAbs(y)))
            big == FAdd(j[1], FAdd(j[2], j[3]))
        IN Cl("solid-shape-mass", ok(e.m, m))
           \o Cl("solid-shape-moments", \A i \in 1..3 : Close(e.i[i][i], FMul(m, j[i]), FAdd(Rel(11, FMul(m, big)), Tiny(20))))
           \o Cl("solid-shape-at-gravity-center", e.p = e.g)
EventCl(e) == CASE e.o = "start" -> NoClause
                [] e.o = "op" -> OpCl(e)
                [] e.o = "solid" -> SolidCl(e)
                [] e.o = "poke" -> Cl("inertia-objects-share-nothing", Len(e.chg) = 0)
                [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ ob = [x \in {} |-> x] /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ ob' = IF e.o = "start" THEN [x \in {} |-> x] ELSE IF e.o = "op" THEN TLCEval(NextOb(e)) ELSE ob
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
