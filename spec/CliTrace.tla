------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Trace validation of the command.  A scenario is a command line: the     *)
(* options as typed, the input as loaded, then one step per operation      *)
(* performed through the library on a mesh of its own, each validated      *)
(* against the relation the options ask for, and at last what the command  *)
(* did: how it ended, the files it left, what it printed.  The steps must  *)
(* be the pipeline of the line typed, and the file the mesh they end with. *)
(***************************************************************************)
EXTENDS MeshTrace, CliDef
FC == INSTANCE FormatCl
CT == INSTANCE ClipTrace WITH clp <- reg
HG == INSTANCE HydroGeom

VARIABLES line, done, failed, pose
allvars == <<l, reg, cov, line, done, failed, pose>>

FPi == FAdd(FInt(3), FDivI(FAdd(FInt(141592653), FDivI(FAdd(FInt(589793238), FDivI(FInt(462643), 1000000)), 1000000000)), 1000000000))
Deg(x) == FDivI(FMul(x, FPi), 180)
W == "w"
Arg(o, i) == o.a[i].x
Only(d, x) == [i \in 1..3 |-> IF i = d THEN x ELSE Zero]
Only1(d, x) == [i \in 1..3 |-> IF i = d THEN x ELSE One]
AxisOf(k) == IF k \in {"tx", "rx", "sx"} THEN 1 ELSE IF k \in {"ty", "ry", "sy"} THEN 2 ELSE 3
\* one operation of the pipeline
RotCl(pre, post, a) == LET R == MMul(RotZ(a[3]), MMul(RotY(a[2]), RotX(a[1]))) IN AffCl(pre, post, MapV(pre, LAMBDA p : MVec(R, p)), Zero) \o SameF(pre, post)
TransCl(pre, post, t) == AffCl(pre, post, MapV(pre, LAMBDA p : VAdd(p, t)), Rel(13, VMaxAbs(t))) \o SameF(pre, post)
ScaleCl(pre, post, k) == AffCl(pre, post, MapV(pre, LAMBDA p : ScaleBy(p, k)), Zero) \o SameF(pre, post)
ClipCl(pre, post, p) == LET d == CT!Derive(pre, [n |-> p.n, c |-> p.c, tol |-> Tiny(3), ac |-> FALSE])
                            labs == {d.lab[v] : v \in 0..Len(pre.V)-1}
                        IN IF d.ok /\ "b" \in labs /\ labs # {"b"} THEN CT!FacesCl(d, post) ELSE NoClause
StepOf(o, pre, post) ==
  CASE o.k = "cc" -> AddCl(pre, reg["cc"], post)
    [] o.k = "md" -> MergeCl(pre, post, IF Len(o.a) = 0 THEN Tiny(8) ELSE Arg(o, 1))
    [] o.k = "mirror" -> LET p == PlaneDef(line.typed, o) IN AffCl(pre, post, MapV(pre, LAMBDA q : Reflect(q, p.n, p.c)), Rel(11, FAbs(p.c))) \o FlipF(pre, post)
    [] o.k = "sym" -> LET p == PlaneDef(line.typed, o) IN SymCl(pre, post, p.n, p.c)
    [] o.k = "hm" -> HealMeshCl(pre, post, Tiny(5))
    [] o.k = "hn" -> HealNormalsCl(pre, post)
    [] o.k = "t" -> TransCl(pre, post, <<Arg(o, 1), Arg(o, 2), Arg(o, 3)>>)
    [] o.k \in {"tx", "ty", "tz"} -> TransCl(pre, post, Only(AxisOf(o.k), Arg(o, 1)))
    [] o.k = "r" -> RotCl(pre, post, <<Deg(Arg(o, 1)), Deg(Arg(o, 2)), Deg(Arg(o, 3))>>)
    [] o.k \in {"rx", "ry", "rz"} -> RotCl(pre, post, Only(AxisOf(o.k), Deg(Arg(o, 1))))
    [] o.k = "s" -> ScaleCl(pre, post, <<Arg(o, 1), Arg(o, 1), Arg(o, 1)>>)
    [] o.k \in {"sx", "sy", "sz"} -> ScaleCl(pre, post, Only1(AxisOf(o.k), Arg(o, 1)))
    [] o.k = "fn" -> KeepV(pre, post) \o FlipF(pre, post)
    [] o.k = "tq" -> TriangulateCl(pre, post)
    [] o.k = "c" -> ClipCl(pre, post, PlaneDef(line.typed, o))
    [] OTHER -> Cl("harness-step", FALSE)
\* operations that refuse some meshes
MayRefuse == {"hm", "hn", "c"}
StepCl(e) == LET o == line.typed[e.i] IN
  IF e.exc # "" THEN (IF o.k \in MayRefuse THEN NoClause ELSE Cl("no-exception", FALSE))
  ELSE IF ~WellFormed(e.post) THEN Cl("well-formed-result", FALSE)
  ELSE IF ~Measurable(e.post) THEN NoClause ELSE StepOf(o, reg[W], e.post)
EquilCl(e) == IF e.exc # "" THEN NoClause
              ELSE LET pre == reg[W] IN AffCl(pre, e.post, MapV(pre, LAMBDA p : VAdd(MVec(e.R, p), <<Zero, Zero, e.z>>)), Zero) \o SameF(pre, e.post)
(********************************* reports *********************************)
T == line.typed
AtReport == IF "kept" \in DOMAIN reg THEN reg["kept"] ELSE reg[W]      \* inertias are those of the mesh before it is set afloat
ArgOf(k, dflt) == IF Has1(T, k) THEN LET o == T[LastOf(T, k)] IN IF o.a[1].num THEN o.a[1].x ELSE Density(o.a[1].w) ELSE dflt
Fixed(shown, x, digits, rel) == Close(shown, x, FAdd(FDivI(FMulI(Tiny(digits), 51), 100), FMul(rel, FAbs(x))))
Expo(shown, x, abs) == Close(shown, x, FAdd(abs, FMul(FDivI(Tiny(2), 18), FAbs(x))))      \* %.3E
PlainCl(r) ==
  LET m == AtReport ts == TLCEval(AllTris(m.V, m.F))
      vol == Volume(m.V, m.F)
      L == Scale(m.V) L3 == FMul(L, FMul(L, L))
      rho == ArgOf("rho", FInt(1023))
      ok == Closed(m.F) /\ Consistent(m.F) /\ AllPlanar(m.V, m.F) /\ FLt(Rel(3, L3), vol)
      I == MScale(rho, SolidInertia(ts))
      abs == Rel(7, FMul(rho, FMul(L3, FMul(L, L))))
  IN ClIf("cli-solid-printed", ok, /\ Fixed(r.mass, FDivI(FMul(rho, vol), 1000), 3, Tiny(8))
                                    /\ LET g == VDiv(VolMoment1(ts), vol) IN \A d \in 1..3 : Close(r.cog[d], g[d], FAdd(FDivI(FMulI(Tiny(3), 51), 100), Rel(6, L)))
                                    /\ \A i \in 1..3 : \A j \in 1..3 : Expo(r.mat[i][j], I[i][j], abs))
ShellCl(r) ==
  LET m == AtReport ts == TLCEval(AllTris(m.V, m.F))
      A == TotalArea(m.V, m.F)
      L == Scale(m.V) L2 == FMul(L, L)
      sd == FMul(ArgOf("rho", FInt(7850)), ArgOf("thickness", FDivI(One, 50)))
      ok == AllPlanar(m.V, m.F) /\ FLt(Rel(3, L2), A)
      I == MScale(sd, ShellInertia(ts))
      abs == Rel(7, FMul(sd, FMul(L2, L2)))
  IN ClIf("cli-shell-printed", ok, /\ Fixed(r.mass, FDivI(FMul(sd, A), 1000), 3, Tiny(8))
                                    /\ LET g == VDiv(ShellM1(m.V, m.F), A) IN \A d \in 1..3 : Close(r.cog[d], g[d], FAdd(FDivI(FMulI(Tiny(3), 51), 100), Rel(6, L)))
                                    /\ \A i \in 1..3 : \A j \in 1..3 : Expo(r.mat[i][j], I[i][j], abs))
InfoCl(r) == LET m == reg[W] b == BBox(m.V) IN
  Cl("cli-info-printed", /\ r.counts = <<Len(m.V), Len(m.F), Cardinality(TriIds(m.F)), Cardinality(QuadIds(m.F))>>
                         /\ \A i \in 1..6 : Fixed(r.box[i], b[i], 6, Tiny(9)))
\* the hull afloat in reg[W], brought there by x' = R x + z e_z; points are printed in the frame it was given in
HydroRepCl(r) ==
  LET d == HG!Immersed(reg[W], MId, Zero)
      rho == ArgOf("wd", FInt(1025))
      grav == ArgOf("g", FDivI(FInt(981), 100))
      mass == FDivI(FMul(rho, HG!ImmVolume(d)), 1000)
      tgt == ArgOf("mdisp", Zero)
      \* a heavier ship than the hull can carry sinks it to its top, a clearance excepted
      b == BBox(reg[W].V)
      sunk == FLt(mass, tgt) /\ FLe(b[6], FMulI(FMax(Tiny(3), FMul(Tiny(4), FSub(b[6], b[5]))), 3))
      good == AllPlanar(reg[W].V, reg[W].F) /\ d.ok /\ d.closed /\ d.water /\ ~d.open
      \* the rest of the report
      hascog == Has1(T, "cog")
      v == TLCEval(HG!ImmVolume(d))
      bb == TLCEval(VDiv(HG!ImmMoment(d), v))
      co == IF hascog THEN LET o == T[LastOf(T, "cog")] IN <<Arg(o, 1), Arg(o, 2), Arg(o, 3)>> ELSE <<bb[1], bb[2], ArgOf("zg", Zero)>>
      g == TLCEval(LET w == MVec(pose.R, co) IN <<w[1], w[2], FAdd(w[3], pose.z)>>)
      h == TLCEval(HG!Hydro(d, g, g))
      L == TLCEval(FMax(d.L, Scale(<<g>>)))
      L2 == FMul(L, L) L3 == FMul(L, L2)
      big == TLCEval(good /\ ~r.warn /\ FLt(FMul(Tiny(2), L3), v) /\ FLt(FMul(Tiny(2), L2), h.A))
      rel == Tiny(5)
      cond == FAdd(One, FAdd(FDiv(L3, v), FDiv(L2, h.A)))
      half(n) == FDivI(FMulI(Tiny(n), 51), 100)
      at(n, e) == FAdd(half(n), FMul(rel, e))
      expo(x, y, e, n) == Close(x, y, FAdd(FAdd(FMul(rel, e), Tiny(4)), FMul(FMulI(Tiny(n), 6), FAbs(y))))
      un(p) == HG!Unplaced(p, pose.R, pose.z)
      lwl == FSub(h.wb[2], h.wb[1])
      haslpp == Has1(T, "lpp") hasap == Has1(T, "ap")
      lpp == IF haslpp THEN ArgOf("lpp", Zero) ELSE IF hasap THEN h.wb[2] ELSE lwl
      rg == FMul(rho, grav)
      K == HG!Stiff(h, rho, grav)
      tK == FMul(rg, FMul(L3, FMul(L, cond)))
      m == FMul(rho, v)
      bos == FSub(h.bb[4], h.bb[3])
      sx == FMulI(FDivI(bos, 10), 3) sy == FDivI(lpp, 4)
      inert(x) == FMul(m, FMul(x, x))
      ml2 == FMul(FMul(m, FAdd(L2, FMul(lpp, lpp))), cond)
      gyr(x, i) == Close(FMul(x, x), FDiv(h.I[i][i], v), FAdd(FMul(rel, FMul(L2, cond)), FMul(Tiny(3), FAdd(Tiny(3), FMulI(x, 2)))))
  IN ClIf("cli-hydrostatics-printed", good,
          Fixed(r.mass, mass, 3, Tiny(7)) /\ Fixed(r.rho, rho, 1, Tiny(9)) /\ Fixed(r.g, grav, 2, Tiny(9)))
     \o ClIf("cli-displacement-reached", good /\ Has1(T, "mdisp") /\ ~r.warn, sunk \/ FLe(FAbs(FSub(mass, tgt)), FMul(Tiny(5), FAdd(tgt, mass))))
     \o ClIf("cli-hydro-centres", big, /\ \A i \in 1..3 : Close(r.cog[i], (IF hascog THEN co ELSE <<bb[1], bb[2], co[3]>>)[i], at(3, FMul(L, cond)))
                                       /\ \A i \in 1..3 : Close(r.b[i], un(bb)[i], at(3, FMul(L, cond)))
                                       /\ \A i \in 1..3 : Close(r.f[i], un(<<h.fx, h.fy, Zero>>)[i], at(3, FMul(L, cond)))
                                       /\ Close(r.zc, pose.z, at(3, L)))
     \o ClIf("cli-hydro-dimensions", big, /\ Close(r.vol, v, at(3, FMul(L3, cond))) /\ Close(r.A, h.A, at(1, FMul(L2, cond))) /\ Close(r.wet, h.wet, at(1, L2))
                                          /\ Close(r.draught, FNeg(h.bb[5]), at(3, L)) /\ Close(r.los, FSub(h.bb[2], h.bb[1]), at(2, L))
                                          /\ Close(r.bos, bos, at(2, L)) /\ Close(r.lwl, lwl, at(2, FMul(L, cond))) /\ Close(r.fp, h.wb[2], at(2, FMul(L, cond))))
     \o ClIf("cli-hydro-lpp", big, Close(r.lpp, lpp, at(2, FMul(L, cond))) /\ r.trust = (haslpp \/ hasap))
     \o ClIf("cli-hydro-stability", big, /\ Close(r.bm, h.bm, at(3, FMul(L, FMul(cond, cond)))) /\ Close(r.bl, h.bl, at(3, FMul(L, FMul(cond, cond))))
                                         /\ Close(r.gm, h.gm, at(3, FMul(L, FMul(cond, cond)))) /\ Close(r.gl, h.gl, at(3, FMul(L, FMul(cond, cond))))
                                         /\ FLt(at(3, FMul(L, FMul(cond, cond))), FAbs(h.gm)) => r.unst[1] = FLt(h.gm, Zero)
                                         /\ FLt(at(3, FMul(L, FMul(cond, cond))), FAbs(h.gl)) => r.unst[2] = FLt(h.gl, Zero))
     \o ClIf("cli-hydro-stiffness", big, \A i \in 1..6 : expo(r.K[i], <<K[1][1], K[1][2], K[1][3], K[2][2], K[2][3], K[3][3]>>[i], tK, 5))
     \o ClIf("cli-hydro-inertias", big, /\ Close(r.stdR[1], sx, at(3, L)) /\ \A i \in 2..3 : Close(r.stdR[i], sy, at(3, FMul(L, cond)))
                                        /\ \A i \in 1..3 : expo(r.stdI[i], inert(IF i = 1 THEN sx ELSE sy), ml2, 4)
                                        /\ \A i \in 1..3 : expo(r.I[i], FMul(rho, h.I[i][i]), ml2, 4) /\ gyr(r.R[i], i))
     \o ClIf("cli-report-file", Has1(T, "report"), r.file)
ReportsCl(rep) ==
  (IF Has1(T, "pi") /\ ~Has1(T, "q") THEN (IF Has(rep, "pi") THEN PlainCl(rep.pi) ELSE Cl("cli-solid-printed", FALSE)) ELSE NoClause)
  \o (IF Has1(T, "si") /\ ~Has1(T, "q") THEN (IF Has(rep, "si") THEN ShellCl(rep.si) ELSE Cl("cli-shell-printed", FALSE)) ELSE NoClause)
  \o (IF Has1(T, "i") THEN (IF Has(rep, "i") THEN InfoCl(rep.i) ELSE Cl("cli-info-printed", FALSE)) ELSE NoClause)
  \o (IF Has1(T, "hs") THEN (IF Has(rep, "hs") THEN HydroRepCl(rep.hs) ELSE Cl("cli-hydrostatics-printed", FALSE)) ELSE NoClause)
  \o (IF Has1(T, "list") THEN Cl("cli-mediums-listed", /\ {rep.list[i][1] : i \in 1..Len(rep.list)} = Mediums
              /\ \A i \in 1..Len(rep.list) : Fixed(rep.list[i][2], Density(rep.list[i][1]), 3, Tiny(12))) ELSE NoClause)
  \o Cl("cli-nothing-unrequested", /\ rep.list # <<>> => Has1(T, "list")
                                    /\ \A k \in {"pi", "si", "hs"} : Has(rep, k) => Has1(T, k))
(******************************** the command *******************************)
\* the file read, the file to write
OutWord == IF Has1(T, "o") THEN T[LastOf(T, "o")].a[1].w ELSE IF Has1(T, "ofmt") THEN line.base \o "." \o T[LastOf(T, "ofmt")].a[1].w ELSE ""
OutName == IF OutWord = "" THEN "" ELSE IF Has1(T, "ofmt") THEN T[LastOf(T, "ofmt")].a[1].w ELSE T[LastOf(T, "o")].a[1].ext
OutOK == OutWord = "" \/ (OutName \in DOMAIN FC!Canon /\ FC!Canon[OutName] \notin FC!ReadOnly)
InName == IF Has1(T, "ifmt") THEN T[LastOf(T, "ifmt")].a[1].w ELSE line.ext
InOK == line.exists /\ InName \in DOMAIN FC!Canon /\ (Has1(T, "cc") => T[LastOf(T, "cc")].a[1].exists)
Runs == Usable(T) /\ InOK /\ OutOK
Files == (IF OutWord = "" THEN {} ELSE {OutWord}) \cup (IF Has1(T, "hs") /\ Has1(T, "report") THEN {T[LastOf(T, "report")].a[1].w} ELSE {})
CliCl(e) ==
  IF Unclear(T) THEN Cl("cli-input-unchanged", ~e.inchg)
  ELSE IF Runs /\ ~failed THEN
       Cl("harness-steps", done = Pipeline(T))
       \o Cl("cli-carried-out", e.exc = "")
       \o Cl("cli-input-unchanged", ~e.inchg)
       \o (IF e.exc # "" THEN NoClause
           ELSE Cl("cli-files-written", Range(e.created) = Files)
                \o (IF OutWord = "" \/ OutWord \notin Range(e.created) THEN NoClause
                    ELSE FC!WrittenCl(FC!Canon[OutName], e.lines, reg[W], IF Has1(T, "hs") THEN Rel(4, Scale(reg[W].V)) ELSE Rel(10, Scale(reg[W].V))))
                \o ReportsCl(e.rep))
  ELSE Cl("cli-refused", e.exc # "" /\ e.exc # "Timeout")
       \o Cl("cli-input-unchanged", ~e.inchg)
       \o Cl("cli-nothing-written", OutWord \notin Range(e.created))
CliEventCl(e) ==
  CASE e.o = "line" -> NoClause
    [] e.o = "cload" -> FC!LoadCl(e)
    [] e.o = "step" -> StepCl(e)
    [] e.o = "equil" -> EquilCl(e)
    [] e.o = "keep" -> NoClause
    [] e.o = "cli" -> CliCl(e)
    [] OTHER -> EventCl(e)
NoLine == [typed |-> <<>>]
Upright == [z |-> Zero, R |-> MId]
CInit == Init /\ line = NoLine /\ done = <<>> /\ failed = FALSE /\ pose = Upright
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
CNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                cs == TLCEval(CliEventCl(e))
                bad == BadOf(cs)
            IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
               /\ cov' = Bump(cov, OkOf(cs) \cup bad)
               /\ reg' = IF e.o = "cload" THEN Put(reg, e.m, [V |-> e.V, F |-> e.F])
                         ELSE IF e.o = "keep" THEN Put(reg, "kept", reg[W])
                         ELSE IF e.o \in {"step", "equil"} THEN (IF e.exc = "" THEN Put(reg, W, e.post) ELSE reg)
                         ELSE IF e.o \in {"line", "cli"} THEN reg ELSE RegNext(e)
               /\ line' = IF e.o = "start" THEN NoLine ELSE IF e.o = "line" THEN e ELSE line
               /\ done' = IF e.o = "start" THEN <<>> ELSE IF e.o = "step" /\ e.exc = "" THEN Append(done, e.i) ELSE done
               /\ failed' = IF e.o = "start" THEN FALSE ELSE failed \/ (e.o \in {"cload", "step", "equil", "healtri"} /\ e.exc # "")
               /\ pose' = IF e.o = "start" THEN Upright ELSE IF e.o = "equil" /\ e.exc = "" THEN [z |-> e.z, R |-> e.R] ELSE pose
               /\ l' = l + 1
               /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
=============================================================================
