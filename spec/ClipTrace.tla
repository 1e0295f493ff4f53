----------------------------- MODULE ClipTrace -----------------------------
(***************************************************************************)
(* Trace validation of MeshClipper.  State: mesh registers and, for each   *)
(* clipper, what it was given (mesh, plane, tolerance, closed boundaries   *)
(* demanded).  The result read from a clipper must be the one the          *)
(* specification derives from that state, whatever the clipper did before. *)
(***************************************************************************)
EXTENDS ClipGeom, Clauses

Trace == JsonDeserialize(TraceFile)
VARIABLES l, reg, clp, cov
vars == <<l, reg, clp, cov>>

Rel(n, x) == FMul(Tiny(n), x)
PosFaces(m) == TLCEval([i \in 1..Len(m.F) |-> [k \in 1..NC(m.F[i]) |-> Pt(m.V, Corners(m.F[i])[k])]])
SameBag(A, B) == /\ Len(A) = Len(B)
                 /\ Range(A) = Range(B)
                 /\ Cardinality(Range(A)) = Len(A) \/ \A x \in Range(A) :
                        Cardinality({i \in 1..Len(A) : A[i] = x}) = Cardinality({i \in 1..Len(B) : B[i] = x})

AxisAligned(n) == Cardinality({a \in 1..3 : n[a] # Zero}) = 1

\* everything derived from the clipper's state, computed once
Derive(m, s) ==
   LET can == Canon(m.V)
       L == FAdd(Scale(m.V), FAbs(s.c))
       D == TLCEval([i \in 1..Len(m.V) |-> Dist(m.V[i], s.n, s.c)])
       lab == TLCEval([v \in 0..Len(m.V)-1 |-> Label(D[v+1], s.tol)])
       \* a vertex so close to the tolerance that rounding decides; exact ties are not (axis aligned planes: no rounding)
       tie == \E i \in 1..Len(D) : LET g == FSub(FAbs(D[i]), s.tol) IN FLt(FAbs(g), Rel(12, L)) /\ ~(AxisAligned(s.n) /\ g = Zero)
       Fc0 == TLCEval([i \in 1..Len(m.F) |-> [k \in 1..4 |-> can[m.F[i][k]]]])
       proper == \A i \in 1..Len(Fc0) : ProperFace(Fc0[i])
       Fc == TLCEval(IF proper THEN FlattenSeq([i \in 1..Len(Fc0) |-> Pieces(Fc0[i], lab)]) ELSE Fc0)
       ps == TLCEval([i \in 1..Len(Fc) |-> ClipPoly(Fc[i], lab)])
       keys == TLCEval(UNION {Range(ps[i]) : i \in 1..Len(ps)})
       ks == SetToSeq(keys)
       kp == TLCEval([k \in keys |-> KeyPos(m.V, D, k)])
       E == TLCEval(WaterEdges(ps, lab))
       near(p, q) == VClose(p, q, Tiny(4))
       sep == \A i, j \in 1..Len(ks) : i < j => ~near(kp[ks[i]], kp[ks[j]])
       simple == proper
   IN [lab |-> lab, ps |-> ps, keys |-> keys, ks |-> ks, kp |-> kp, E |-> E, Fc |-> Fc, L |-> L,
       ok |-> simple /\ ~tie /\ sep, tie |-> tie, simple |-> simple, sep |-> sep]

KeyAt(d, p, tol) == LET c == {k \in d.keys : VClose(d.kp[k], p, tol)} IN IF c = {} THEN <<-1, -1>> ELSE CHOOSE k \in c : TRUE
FEdges(f) == {<<f[i], f[(i % Len(f)) + 1]>> : i \in 1..Len(f)}

FacesCl(d, out) ==
   LET tol == FAdd(Tiny(7), Rel(10, d.L))
       vk == TLCEval([j \in 1..Len(out.V) |-> KeyAt(d, out.V[j], tol)])
       G == TLCEval([i \in 1..Len(out.F) |-> [k \in 1..NC(out.F[i]) |-> vk[Corners(out.F[i])[k] + 1]]])
       pos == TLCEval(\A i \in 1..Len(G) : <<-1, -1>> \notin Range(G[i]))
       kept == TLCEval({i \in 1..Len(d.ps) : d.ps[i] # <<>>})
       S(i) == {g \in 1..Len(G) : Range(G[g]) \subseteq Range(d.ps[i])}
       St == TLCEval([i \in kept |-> S(i)])
       cell(i) == LET s == St[i]
                      all == UNION {FEdges(G[g]) : g \in s}
                  IN /\ FoldLeft(LAMBDA acc, g : acc + Len(G[g]), 0, SetToSeq(s)) = Cardinality(all)
                     /\ {e \in all : <<e[2], e[1]>> \notin all} = PEdges(d.ps[i])
       \* no part of a face covers another face: the faces of the result can be told apart
       apart == \A i, j \in kept : i # j => ~(Range(d.ps[i]) \subseteq Range(d.ps[j]))
   IN Cl("clip-cut-points-exact", pos)
      \o ClIf("clip-each-face-exactly-its-part-below", pos /\ apart, \A i \in kept : cell(i))
      \o ClIf("clip-nothing-else", pos /\ apart,
              /\ UNION {St[i] : i \in kept} = 1..Len(G)
              /\ FoldLeft(LAMBDA acc, i : acc + Cardinality(St[i]), 0, SetToSeq(kept)) = Len(G))

PartCl(m, d, out) ==
   LET all == PosFaces(m)
       side(i) == LET ls == {d.lab[v] : v \in Range(m.F[i])} IN IF ls = {"a"} THEN "a" ELSE IF ls = {"b"} THEN "b" ELSE "o"
       sel(x) == SelectSeq([i \in 1..Len(m.F) |-> i], LAMBDA i : side(i) = x)
       of(x) == [k \in 1..Len(sel(x)) |-> all[sel(x)[k]]]
   IN Cl("partition-lower", SameBag(of("b"), PosFaces(out.lower)))
      \o Cl("partition-upper", SameBag(of("a"), PosFaces(out.upper)))
      \o Cl("partition-crown", SameBag(of("o"), PosFaces(out.crown)))

LoopKeys(d, b) == LET tol == FAdd(Tiny(7), Rel(10, d.L)) IN [i \in 1..Len(b) |-> KeyAt(d, b[i], tol)]
PathEdges(b) == {<<b[i], b[i+1]>> : i \in 1..Len(b)-1}
LoopsCl(m, s, d, out) ==
   LET cl == TLCEval([i \in 1..Len(out.polys) |-> LoopKeys(d, out.polys[i])])
       op == TLCEval([i \in 1..Len(out.lines) |-> LoopKeys(d, out.lines[i])])
       reg1 == d.ok /\ SimpleWater(d.E)
       watertight == reg1 /\ Closed(d.Fc) /\ Consistent(d.Fc)
       len(bs) == FoldLeft(LAMBDA acc, b : acc + Len(b) - 1, 0, bs)
       cycles == ~OpenEnds(d.E)
   IN ClIf("waterline-each-edge-once", reg1,
           /\ UNION ({PathEdges(cl[i]) : i \in 1..Len(cl)} \cup {PathEdges(op[i]) : i \in 1..Len(op)}) = d.E
           /\ len(cl) + len(op) = Cardinality(d.E))
      \o ClIf("waterline-polygons-closed", reg1, \A i \in 1..Len(cl) : Len(cl[i]) >= 4 /\ cl[i][1] = cl[i][Len(cl[i])])
      \o ClIf("waterline-lines-maximal", reg1, \A i \in 1..Len(op) :
             /\ op[i][1] # op[i][Len(op[i])]
             /\ Degree(d.E, op[i][1], 1) > Degree(d.E, op[i][1], 2)
             /\ Degree(d.E, op[i][Len(op[i])], 2) > Degree(d.E, op[i][Len(op[i])], 1))
      \o ClIf("waterline-watertight-all-closed", watertight, Len(op) = 0)
      \o ClIf("waterline-on-plane", reg1, \A i \in 1..Len(out.polys) : \A j \in 1..Len(out.polys[i]) :
             FLe(FAbs(Dist(out.polys[i][j], s.n, s.c)), FAdd(s.tol, FAdd(Tiny(7), Rel(10, d.L)))))
      \o Cl("waterline-ids-are-those-of-the-clipped-crown",
             /\ Len(out.polyids) = Len(out.polys) /\ Len(out.lineids) = Len(out.lines)
             /\ out.npolys = Len(out.polys) /\ out.nlines = Len(out.lines)
             /\ \A i \in 1..Len(out.polys) : Len(out.polyids[i]) = Len(out.polys[i]) /\ \A j \in 1..Len(out.polys[i]) :
                    out.polyids[i][j] \in 0..Len(out.crownV)-1 /\ out.crownV[out.polyids[i][j] + 1] = out.polys[i][j])
      \o ClIf("waterline-number-of-contours", watertight /\ RegularWater(d.E), Len(out.polys) = Contours(d.E))

ResultCl(m, s, e) ==
   LET d == Derive(m, s)
       labs == TLCEval({d.lab[v] : v \in 0..Len(m.V)-1})
       side == IF d.tie THEN "?" ELSE IF "b" \notin labs THEN "above" ELSE IF labs = {"b"} THEN "below" ELSE "cross"
       reg1 == d.ok /\ SimpleWater(d.E)
   IN IF side = "?" THEN NoClause
      ELSE IF side \in {"above", "below"} THEN
         ClIf("refused-naming-the-side", labs # {"o"}, e.exct = "RuntimeError" /\ side \in Range(e.exca))
      ELSE IF s.ac /\ e.exct # "" THEN
         ClIf("closed-demanded-fails-only-if-open", reg1, e.exct = "RuntimeError" /\ OpenEnds(d.E))
      ELSE IF e.exct # "" THEN ClIf("clip-no-exception", d.simple, FALSE)
      ELSE (IF s.ac THEN ClIf("closed-demanded-holds", reg1, ~OpenEnds(d.E)) ELSE NoClause)
           \o (IF d.ok THEN FacesCl(d, e.out) ELSE NoClause)
           \o PartCl(m, d, e.out)
           \o LoopsCl(m, s, d, e.out)

StateOf(e) == IF e.op = "new" THEN [m |-> e.m, n |-> e.n, c |-> e.c, tol |-> e.tol, ac |-> e.ac]
              ELSE IF e.op = "plane" THEN [clp[e.k] EXCEPT !.n = e.n, !.c = e.c]
              ELSE IF e.op = "tol" THEN [clp[e.k] EXCEPT !.tol = e.tol]
              ELSE IF e.op = "ac" THEN [clp[e.k] EXCEPT !.ac = e.ac]     \* takes effect at the next update
              ELSE clp[e.k]
HoldsCl(s, g) == Cl("clip-settings-are-those-given", g.n = s.n /\ g.c = s.c /\ g.tol = s.tol /\ g.ac = s.ac /\ g.src = <<s.m>>)
EventCl(e) ==
   CASE e.o = "start" -> NoClause
     [] e.o = "mesh" -> IF e.exc # "" THEN Cl("no-exception", FALSE) ELSE NoClause
     [] e.o = "clip" -> Cl("clip-source-unchanged", Len(e.chg) = 0)
                        \o (IF e.exct = "" THEN HoldsCl(StateOf(e), e.out.got) ELSE NoClause)
                        \o (IF e.op = "ac" THEN NoClause ELSE ResultCl(reg[StateOf(e).m], IF e.op = "read" THEN [StateOf(e) EXCEPT !.ac = FALSE] ELSE StateOf(e), e))   \* (demanding closed boundaries takes effect at the next update)
     [] e.o = "poke" -> Cl("clip-results-share-nothing", Len(e.chg) = 0)
     [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ reg = [x \in {} |-> x] /\ clp = [x \in {} |-> x] /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ reg' = IF e.o = "start" THEN [x \in {} |-> x]
                        ELSE IF e.o = "mesh" THEN [x \in (DOMAIN reg) \cup {e.m} |-> IF x = e.m THEN e.post ELSE reg[x]] ELSE reg
              /\ clp' = IF e.o = "start" THEN [x \in {} |-> x]
                        ELSE IF e.o = "clip" THEN [x \in (DOMAIN clp) \cup {e.k} |-> IF x = e.k THEN StateOf(e) ELSE clp[x]] ELSE clp
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
