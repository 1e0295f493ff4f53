----------------------------- MODULE FormatGen -----------------------------
(***************************************************************************)
(* Design model of the formats: whatever a format leaves free (numbers of  *)
(* the nodes, sections, comments, kinds of faces), what a reader makes of  *)
(* a file is the mesh its writer described, and a file of a format that    *)
(* announces its contents is not read once cut; nor is one whose faces     *)
(* name nodes it does not hold or have five corners, nor one where a word  *)
(* stands for a number.  Every file is emitted and given to the library.   *)
(***************************************************************************)
EXTENDS FormatDef, Json
CONSTANTS Formats, MeshIds, Splits, LabelKinds
VARIABLES fmt, mi, lk, split, blank, cut, dmg
vars == <<fmt, mi, lk, split, blank, cut, dmg>>
Pt(n) == IF n = 4 THEN <<Zero, Zero, Zero>> ELSE <<FDivI(FInt(7 * n - 20), 8), FDivI(FInt(n * n), 4), FDivI(FInt(3 - 2 * n), 16)>>
Q1 == <<0, 1, 2, 3>>
T1 == <<0, 1, 2, 0>>
MeshOf(i) ==
  CASE i = 1 -> [V |-> [n \in 1..3 |-> Pt(n)], F |-> << T1 >>]
    [] i = 2 -> [V |-> [n \in 1..4 |-> Pt(n)], F |-> << Q1 >>]
    [] i = 3 -> [V |-> [n \in 1..5 |-> Pt(n)], F |-> << <<3, 2, 1, 0>>, <<2, 3, 4, 2>> >>]
    [] i = 4 -> [V |-> [n \in 1..6 |-> Pt(n)], F |-> << <<4, 1, 0, 4>>, <<1, 4, 5, 2>>, <<2, 5, 3, 2>> >>]
    [] i = 5 -> [V |-> [n \in 1..7 |-> Pt(n)], F |-> << <<6, 0, 1, 2>>, <<3, 4, 5, 3>>, <<2, 1, 4, 3>>, <<5, 4, 1, 5>>, <<0, 6, 5, 1>> >>]
    [] i = 6 -> [V |-> [n \in 1..8 |-> Pt(n)], F |-> << <<0, 3, 2, 1>>, <<4, 5, 6, 7>>, <<0, 1, 5, 4>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 0, 4, 7>> >>]
Mesh == MeshOf(mi)
N == Len(Mesh.V)
Labels(k) == CASE k = 1 -> [n \in 1..N |-> n] [] k = 2 -> [n \in 1..N |-> N + 1 - n] [] k = 3 -> [n \in 1..N |-> 10 * n + 3]
               [] k = 4 -> [n \in 1..N |-> n + 17] [] OTHER -> [n \in 1..N |-> 100 + ((n * 5) % 11)]
\* for the formats that do not number the nodes, lk says what else stands in the file
o == [lab |-> Labels(lk) \o IF dmg = "high" THEN <<999>> ELSE <<>>, split |-> split, blank |-> blank, extra |-> lk, solid |-> dmg = "cell"]
Numbered == {"hst", "dat", "rad", "msh2", "msh4", "inp", "vtk", "vtu", "vtp", "wrl"}
\* the mesh laid out: the first face names a node after the last one, or before the first one, or has five corners
Laid == CASE dmg = "high" -> [Mesh EXCEPT !.F[1][2] = N] [] dmg = "low" -> [Mesh EXCEPT !.F[1][2] = -1]
          [] dmg = "five" -> [Mesh EXCEPT !.F[1] = <<0, 1, 2, 3, 4>>] [] OTHER -> Mesh
\* the last real of the file becomes a word
Wordy(ls) == LET at == FoldLeft(LAMBDA acc, n : IF \E t \in Range(ls[n]) : t.k = "x" THEN n ELSE acc, 0, [n \in 1..Len(ls) |-> n])
                 k == FoldLeft(LAMBDA acc, n : IF ls[at][n].k = "x" THEN n ELSE acc, 0, [n \in 1..Len(ls[at]) |-> n])
             IN [ls EXCEPT ![at][k] = W("x2.5")]
Worded(ls) == IF dmg = "word" THEN Wordy(ls) ELSE ls
\* the lines of the file; INP: two bodies of the same mesh, one of them twice, in three frames
IsINP == fmt = "inp"
Types == (IF Quads(Mesh.F) # <<>> THEN <<"Q4C000">> ELSE <<>>) \o (IF Tris(Mesh.F) # <<>> THEN <<"T3C000">> ELSE <<>>)
Other == MeshOf(IF mi = 1 THEN 2 ELSE mi - 1)
OtherTypes == (IF Quads(Other.F) # <<>> THEN <<"Q4C000">> ELSE <<>>) \o (IF Tris(Other.F) # <<>> THEN <<"T3C000">> ELSE <<>>)
OtherO == [o EXCEPT !.lab = [n \in 1..Len(Other.V) |-> n]]
Frames == << [name |-> "FR1", t |-> <<Zero, Zero, Zero>>], [name |-> "FR2", t |-> <<FInt(12), FInt(-20), FDivI(One, 2)>>], [name |-> "FR10", t |-> <<FInt(-3), Zero, FInt(4)>>] >>
Bodies == LET a(fr) == [file |-> "Buoy1", frame |-> fr, types |-> Types] b(fr) == [file |-> "Buoy2", frame |-> fr, types |-> OtherTypes]
          IN CASE split = 1 -> <<a("FR2")>> [] split = 2 -> <<a("FR1"), b("FR10")>> [] OTHER -> <<b("FR2"), a("FR1"), a("FR10")>>
Files == [Buoy1 |-> Worded(BodyFile(Laid, o)), Buoy2 |-> BodyFile(Other, OtherO)]
Pair == IF split = 2 THEN <<Laid, Other>> ELSE <<Laid>>      \* pieces
Lines == CASE IsINP -> LayINP(Bodies, Frames, o) [] fmt = "vtu" -> LayVTU(Pair, o) [] fmt = "vtp" -> LayVTP(Pair, o)
           [] fmt = "wrl" -> LayWRL(<<Laid, Other>>, o) [] OTHER -> Worded(Layout(fmt, Laid, o))
Read(ls) == IF IsINP THEN ParseINP(StripG(ls), [Buoy1 |-> StripG(Files.Buoy1), Buoy2 |-> StripG(Files.Buoy2)]) ELSE Parse(fmt, StripG(ls))
\* what the INP file describes
FrameT(n) == (CHOOSE f \in 1..3 : Frames[f].name = n)
JoinINP == LET step(acc, b) == LET m == IF b.file = "Buoy1" THEN Mesh ELSE Other
                                   t == Frames[FrameT(b.frame)].t
                               IN [V |-> acc.V \o Map(LAMBDA p : VAdd(p, t), m.V),
                                   F |-> acc.F \o Map(LAMBDA f : [c \in 1..4 |-> f[c] + Len(acc.V)], Quads(m.F) \o Tris(m.F))]
           IN FoldLeft(step, [V |-> <<>>, F |-> <<>>], Bodies)
Init == /\ fmt \in Formats /\ mi \in MeshIds /\ lk \in LabelKinds /\ split \in Splits /\ blank \in BOOLEAN /\ cut = 0 /\ dmg = ""
        /\ lk > 1 => fmt \in Numbered
        /\ fmt \in {"nat", "nem", "mar", "stl", "med"} => split = 1
        /\ fmt \in {"nat", "nem", "mar", "stl", "med", "pnl"} => ~blank
        /\ fmt = "pnl" => split = 1
        /\ fmt = "vtp" => ~blank
        /\ fmt \in {"vtk", "vtu", "vtp", "wrl"} => lk # 4
Cut == /\ cut = 0 /\ dmg = "" /\ fmt \in Counted \cup Sectional
       /\ \E n \in 1..(IF fmt = "pnl" THEN Len(Lines) - 1 ELSE Len(Lines)) : cut' = n       \* lines taken away
       /\ UNCHANGED <<fmt, mi, lk, split, blank, dmg>>
\* a format has its damages
Damages == [high |-> {"nat", "nem", "mar", "hst", "dat", "rad", "msh2", "msh4", "tec", "obj", "vtk", "vtu", "vtp", "pnl", "wrl", "med", "inp"},
            low |-> {"nat", "nem", "mar", "tec", "obj", "vtk", "vtu", "vtp", "pnl", "med"},
            cell |-> {"vtu"},
            five |-> {"vtk", "vtu", "vtp", "wrl", "pnl", "obj"},
            word |-> {"nat", "nem", "mar", "gdf", "hst", "dat", "rad", "msh2", "msh4", "tec", "obj", "vtk", "stl", "pnl", "inp"}]
Damage == /\ cut = 0 /\ dmg = "" /\ \E d \in DOMAIN Damages : fmt \in Damages[d] /\ dmg' = d /\ (d = "five" => N >= 5)
                                  /\ (d = "high" /\ split = 2 => fmt \notin {"vtu", "vtp"})   \* it would be a node of the second piece
          /\ UNCHANGED <<fmt, mi, lk, split, blank, cut>>
Next == Cut \/ Damage
Content == SubSeq(Lines, 1, Len(Lines) - cut)
\* the last line of an MSH file, a comment of a PNL file may be missing
Means == cut = 0 /\ dmg = "" =>
  LET r == Read(Lines) IN
  /\ r.ok
  /\ CASE IsINP -> [V |-> r.V, F |-> r.F] = JoinINP
       [] fmt \in {"vtu", "vtp"} -> [V |-> r.V, F |-> r.F] = Join(Pair)
       [] fmt = "wrl" -> LET w == WRLMesh(<<Mesh, Other>>, o)
                         IN r.F = w.F /\ Len(r.V) = Len(w.V) /\ \A n \in 1..Len(r.V) : VClose(r.V[n], w.V[n], Tiny(20))
       [] fmt = "stl" -> Corners(r) = Corners([V |-> Mesh.V, F |-> Halves(Mesh.F)])
       [] fmt = "gdf" -> Corners(r) = Corners(Mesh)
       [] OTHER -> r.V = Mesh.V /\ SameFaces(fmt, r.F, Mesh.F)
\* what is left when the end of a section is the end of the file is a smaller mesh
CutRefused == cut > 0 /\ (fmt = "pnl" => cut > 1) =>
  LET r == Read(Content) IN
  IF fmt \in Sectional THEN r.ok => \/ Len(r.F) < Len(Mesh.F)
                                   \/ LET last == FoldLeft(LAMBDA acc, n : IF \E t \in Range(StripG(Lines)[n]) : t.k = "w" /\ t.s \in {"ENDPANEL", "*RETURN"} THEN n ELSE acc, 0, [n \in 1..Len(Lines) |-> n])
                                      IN Len(Lines) - cut >= last
  ELSE IF fmt = "wrl" THEN r.ok => lk = 3 /\ r.F = Mesh.F      \* only its second shape is missing
  ELSE ~r.ok
DamageRefused == dmg # "" => ~Read(Content).ok
Emit == PrintT("SCN " \o ToJson([fmt |-> fmt, lines |-> Content, cut |-> cut, dmg |-> dmg, files |-> IF IsINP THEN Files ELSE [Buoy1 |-> <<>>]]))
=============================================================================
