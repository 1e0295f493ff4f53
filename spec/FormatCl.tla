------------------------------ MODULE FormatCl ------------------------------
(* What a reader and a writer of mesh files must do, as clauses. *)
EXTENDS FormatDef, Clauses
Rel(k, x) == FMul(Tiny(k), FAbs(x))
Half(k) == FDivI(Tiny(k), 2)

\* names the library knows formats by
Canon == [mar |-> "mar", nemoh |-> "mar", wamit |-> "gdf", gdf |-> "gdf", inp |-> "inp", hydrostar |-> "hst", hst |-> "hst",
          natural |-> "nat", nat |-> "nat", gmsh |-> "msh", msh |-> "msh", rad |-> "rad", radioss |-> "rad", stl |-> "stl", vtu |-> "vtu",
          vtp |-> "vtp", vtk |-> "vtk", tecplot |-> "tec", tec |-> "tec", med |-> "med", salome |-> "med", vrml |-> "wrl", wrl |-> "wrl",
          nem |-> "nem", nemoh_mesh |-> "nem", pnl |-> "pnl", hams |-> "pnl", obj |-> "obj"]
         @@ ("diodore-inp" :> "inp") @@ ("diodore-dat" :> "dat") @@ ("paraview-legacy" :> "vtk")
ReadOnly == {"inp", "msh", "rad", "med", "wrl"}
Single == {"vtk", "vtu", "vtp", "obj", "stl", "wrl"}          \* held in single precision by their reader or writer
\* what a format prints of x
Printed(fmt, x) ==
  CASE fmt \in {"mar", "nem", "pnl", "vtk", "obj"} -> FAdd(Half(6), Rel(15, x))
    [] fmt \in {"nat", "gdf", "hst", "tec", "stl"} -> FAdd(FMul(Rel(6, x), FDivI(FInt(51), 100)), Tiny(23))
    [] fmt = "dat" -> FAdd(FMul(Rel(5, x), FDivI(FInt(51), 100)), Tiny(23))
    [] OTHER -> FAdd(FMulI(Rel(7, x), 2), Tiny(23))
Held(fmt, x) == IF fmt \in Single THEN FAdd(FMulI(Rel(7, x), 2), Tiny(23)) ELSE FAdd(Rel(15, x), Tiny(23))
Sum(p, q, fmt, x) == FAdd(p, q)
PtPrinted(fmt, p, q) == \A d \in 1..3 : Close(p[d], q[d], Printed(fmt, q[d]))
PtNear(fmt, p, q, slack) == \A d \in 1..3 : Close(p[d], q[d], FAdd(Printed(fmt, q[d]), slack))
PtHeld(fmt, p, q) == \A d \in 1..3 : Close(p[d], q[d], Held(fmt, q[d]))
PtBack(fmt, p, q) == \A d \in 1..3 : Close(p[d], q[d], FAdd(Printed(fmt, q[d]), Held(fmt, q[d])))
PtsOK(Ok(_, _), V, U) == Len(V) = Len(U) /\ \A n \in 1..Len(V) : Ok(V[n], U[n])
Shaped(m) == /\ \A n \in 1..Len(m.V) : Len(m.V[n]) = 3 /\ VIsNum(m.V[n])
             /\ \A f \in 1..Len(m.F) : Len(m.F[f]) = 4 /\ \A c \in 1..4 : m.F[f][c] \in 0..(Len(m.V) - 1)
\* merging of the points of a soup moves none by more than its tolerance
Merge == Tiny(7)
CornersOK(Ok(_, _), a, b) == Len(a) = Len(b) /\ \A f \in 1..Len(a) : \A c \in 1..4 : Ok(a[f][c], b[f][c])
Distinct(V) == Cardinality(Range(V)) = Len(V)
TriRows(a, F) == \A f \in 1..Len(F) : a[f][1] = a[f][4] => IsTri(F[f])
\* facets in any order, each starting at any of its points
RotEq(Ok(_, _), a, b) == \E r \in 0..2 : \A c \in 1..3 : Ok(a[((c + r - 1) % 3) + 1], b[c])
BagOK(Ok(_, _), a, b) ==      \* the corners a (file) are those of b (given), as bags
  /\ Len(a) = Len(b)
  /\ LET took == FoldLeft(LAMBDA acc, n : LET free == {m \in (1..Len(b)) \ acc : RotEq(Ok, a[n], b[m])} IN IF free = {} THEN acc ELSE acc \cup {CHOOSE m \in free : TRUE},
                          {}, [n \in 1..Len(a) |-> n])
     IN Cardinality(took) = Len(a)
Back(e) == [V |-> e.V2, F |-> e.F2]
SoupCl(fmt, Ok(_, _), want, got, pre) ==
  IF ~Shaped(got) THEN Cl(pre \o "-faces", FALSE)
  ELSE LET near(p, q) == Ok(p, q) \/ VClose(p, q, FAdd(Merge, FMulI(Rel(7, VMaxAbs(q)), 5)))
           c == Corners(got)
       IN Cl(pre \o "-corners", CornersOK(near, c, want)) \o Cl(pre \o "-merged", Distinct(got.V)) \o Cl(pre \o "-triangles", Len(c) = Len(want) => TriRows(want, got.F))
LoadCl(e) ==
  LET p == IF e.fmt = "inp" THEN ParseINP(e.lines, e.files) ELSE Parse(e.fmt, e.lines)
      got == [V |-> e.V, F |-> e.F]
      \* transformations mix the coordinates of single precision
      moved == e.fmt = "wrl" /\ \E n \in 1..Len(e.lines) : Holds(e.lines[n], "Transform")
      big == IF moved /\ p.ok THEN FoldLeft(LAMBDA acc, q : FMax(acc, VMaxAbs(q)), One, p.V) ELSE Zero
      held(x, y) == PtHeld(e.fmt, x, y) \/ (moved /\ VClose(x, y, FMul(Tiny(6), big)))
  IN IF e.cut > 0 THEN (IF p.ok THEN NoClause ELSE Cl("cut-file-refused", e.exc # "" /\ e.exc # "Timeout"))
     ELSE IF e.dmg # "" THEN (IF p.ok THEN Cl("harness-file-is-damaged", FALSE) ELSE Cl("damaged-file-refused", e.exc # "" /\ e.exc # "Timeout"))
     ELSE IF ~p.ok THEN Cl("harness-file-is-of-the-format", FALSE)
     ELSE IF e.exc # "" THEN Cl("no-exception", FALSE)
     ELSE IF e.fmt \in Soup THEN SoupCl(e.fmt, held, Corners(p), got, "load")
     ELSE Cl("load-vertices", PtsOK(held, e.V, p.V)) \o Cl("load-faces", SameFaces(e.fmt, e.F, p.F))
\* the mesh m, written: ls are the lines of the file
WrittenCl(fmt, ls, m, slack) ==
  LET p == Parse(fmt, ls)
      printed(x, y) == PtNear(fmt, x, y, slack)
      halves == Corners([V |-> m.V, F |-> Halves(m.F)])
      onlytri == Quads(m.F) = <<>>
  IN Cl("written-layout", p.ok)
     \o (IF ~p.ok THEN NoClause
         ELSE IF fmt = "stl" THEN Cl("written-facets", IF onlytri THEN CornersOK(printed, Corners(p), halves) ELSE BagOK(printed, Corners(p), halves))
                \o Cl("written-normals", LET ns == STLNormals(ls) c == Corners(p) IN
                      \A f \in 1..Len(c) : LET a == VSub(c[f][2], c[f][1]) b == VSub(c[f][3], c[f][1]) x == Cross(a, b)
                                               big == FMax(Norm2(a), Norm2(b))
                                               err == FMulI(FMul(FAdd(VMaxAbs(c[f][1]), FMax(VMaxAbs(c[f][2]), VMaxAbs(c[f][3]))), FSqrt(big)), 8)   \* rounding of the corners moves the normal
                                           IN FLt(FMul(Tiny(3), Norm(x)), FMul(Tiny(6), err)) \/ VClose(ns[f], Unit(x), Tiny(2)))
         ELSE IF fmt = "gdf" THEN Cl("written-panels", CornersOK(printed, Corners(p), Corners(m))) \o Cl("written-no-symmetry", GDFSym(ls) = <<0, 0>>)
         ELSE Cl("written-vertices", PtsOK(printed, p.V, m.V)) \o Cl("written-faces", SameFaces(fmt, p.F, m.F))
              \o (CASE fmt = "nat" -> Cl("written-no-symmetry", IntsOf(ls[1]) = <<0, 0>>)          \* the whole hull is written
                    [] fmt = "mar" -> Cl("written-no-symmetry", IntsOf(ls[1]) = <<2, 0>>)
                    [] fmt = "hst" -> Cl("written-closed", LET b == NoBlank(ls) IN Starts(b[Len(b)], "ENDFILE"))
                    [] OTHER -> NoClause))
\* one mesh written and read again
RtCl(e) ==
  IF e.wexc # "" THEN Cl("no-exception", FALSE)
  ELSE LET m == [V |-> e.gV, F |-> e.gF]
           back(x, y) == PtBack(e.fmt, x, y)
           halves == Corners([V |-> m.V, F |-> Halves(m.F)])
           onlytri == Quads(m.F) = <<>>
       IN Cl("caller-arrays-unchanged", Len(e.chg) = 0)
          \o WrittenCl(e.fmt, e.lines, m, Zero)
          \o (IF e.exc # "" THEN Cl("no-exception", FALSE)
              ELSE IF e.fmt = "stl" THEN
                   IF ~Shaped(Back(e)) THEN Cl("readback-faces", FALSE)
                   ELSE LET near(x, y) == back(x, y) \/ VClose(x, y, FAdd(Merge, FMulI(Rel(7, VMaxAbs(y)), 5))) c == Corners(Back(e))
                        IN Cl("readback-facets", IF onlytri THEN CornersOK(near, c, halves) ELSE BagOK(near, c, halves)) \o Cl("readback-triangles", \A f \in 1..Len(e.F2) : IsTri(e.F2[f]))
                           \o Cl("readback-merged", Distinct(e.V2))
              ELSE IF e.fmt = "gdf" THEN SoupCl("gdf", back, Corners(m), Back(e), "readback")
              ELSE Cl("readback-vertices", PtsOK(back, e.V2, m.V)) \o Cl("readback-faces", SameFaces(e.fmt, e.F2, m.F)))
\* large meshes: the head of the file, what is read back of some vertices and faces
HeadCounts(fmt, ls) == CASE fmt = "nat" -> IF Ints(ls[2], 2) THEN IntsOf(ls[2]) ELSE <<-1, -1>>
                         [] fmt = "nem" -> <<ls[1][1].i, ls[2][1].i>>
                         [] fmt = "pnl" -> <<ls[4][2].i, ls[4][1].i>>
                         [] fmt = "tec" -> LET ts == FlattenSeq(ls) n0 == FirstAt(ts, 1, LAMBDA t : IsW(t, "ZONE"))
                                               at(w) == ts[FirstAt(ts, n0 + 1, LAMBDA t : IsW(t, w)) + 1].i IN <<at("N"), at("E")>>
                         [] OTHER -> <<>>
BigCl(e) ==
  IF e.wexc # "" THEN Cl("no-exception", FALSE)
  ELSE LET h == HeadCounts(e.fmt, e.lines)
           back(x, y) == PtBack(e.fmt, x, y)
       IN (IF h = <<>> THEN NoClause ELSE Cl("written-counts", h = <<e.nv, e.nf>>))
          \o (IF e.exc # "" THEN Cl("no-exception", FALSE)
              ELSE Cl("readback-sizes", e.nf2 = e.nf /\ (e.fmt = "gdf" \/ e.nv2 = e.nv))
                   \o (IF e.fmt = "gdf" THEN NoClause ELSE Cl("readback-vertices", PtsOK(back, e.V2, e.gV)) \o Cl("readback-faces", e.F2 = e.gF)))
RefuseCl(e) ==
  LET known == e.name \in DOMAIN Canon
      c == IF known THEN Canon[e.name] ELSE "" IN
  CASE e.what = "load" /\ ~known /\ e.exists -> Cl("unknown-format-refused", e.exc \in {"OSError", "FileNotFoundError"})
    [] e.what = "load" /\ ~e.exists -> Cl("missing-file-refused", e.exc \in {"OSError", "FileNotFoundError"})
    [] e.what = "write" /\ ~known -> Cl("unknown-format-refused", e.exc \in {"OSError"}) \o Cl("nothing-written", ~e.left)
    [] e.what = "write" /\ known /\ c \in ReadOnly -> Cl("unwritable-format-refused", e.exc = "NotImplementedError") \o Cl("nothing-written", ~e.left)
    [] e.what = "known" -> Cl("known-extensions", e.r = (e.name \in DOMAIN Canon))
    [] OTHER -> Cl("unknown-op", FALSE)
=============================================================================
