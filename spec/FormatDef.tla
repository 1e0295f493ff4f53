----------------------------- MODULE FormatDef -----------------------------
(***************************************************************************)
(* What the mesh file formats mean.  A file is a sequence of lines, a line *)
(* a sequence of tokens: words [k |-> "w", s], integers [k |-> "i", i] and *)
(* reals [k |-> "x", x] (fixed point numbers).  The punctuation = , " { }  *)
(* separates tokens and is not one; < > [ ] are words.                     *)
(*                                                                         *)
(* Parse(fmt, lines) is the mesh the file describes: vertices and faces of *)
(* four 0-based vertex numbers, triangles repeating their first one.       *)
(* Layout(fmt, mesh, o) is a file of the format that describes the mesh;   *)
(* o chooses among what the format leaves free: node numbers, sections,    *)
(* comments and blank lines.                                               *)
(***************************************************************************)
EXTENDS Vec, Sequences, SequencesExt, FiniteSets

W(s) == [k |-> "w", s |-> s]
I(n) == [k |-> "i", i |-> n]
X(x) == [k |-> "x", x |-> x]
G(s) == [k |-> "g", s |-> s]              \* punctuation of a layout, not a token
IsW(t, s) == t.k = "w" /\ t.s = s
IsI(t) == t.k = "i"
IsN(t) == t.k \in {"i", "x"}
Num(t) == IF t.k = "i" THEN FInt(t.i) ELSE t.x
StripG(ls) == [n \in 1..Len(ls) |-> SelectSeq(ls[n], LAMBDA t : t.k # "g")]

Ints(ln, k) == Len(ln) = k /\ \A n \in 1..k : IsI(ln[n])
Nums(ln, k) == Len(ln) = k /\ \A n \in 1..k : IsN(ln[n])
IntsOf(ln) == [n \in 1..Len(ln) |-> ln[n].i]
NumsOf(ln) == [n \in 1..Len(ln) |-> Num(ln[n])]
\* a node line: label, x, y, z
NodeLn(ln) == Len(ln) = 4 /\ IsI(ln[1]) /\ IsN(ln[2]) /\ IsN(ln[3]) /\ IsN(ln[4])
PointOf(ln) == <<Num(ln[2]), Num(ln[3]), Num(ln[4])>>
Rows(ls, a, n) == SubSeq(ls, a, a + n - 1)
Map(Op(_), s) == [n \in 1..Len(s) |-> Op(s[n])]
Starts(ln, s) == Len(ln) >= 1 /\ IsW(ln[1], s)
Holds(ln, s) == \E n \in 1..Len(ln) : IsW(ln[n], s)
NoBlank(ls) == SelectSeq(ls, LAMBDA ln : ln # <<>>)
FirstAt(ls, a, Test(_)) == LET hit == {n \in a..Len(ls) : Test(ls[n])} IN IF hit = {} THEN 0 ELSE CHOOSE n \in hit : \A m \in hit : n <= m

Fail == [ok |-> FALSE, V |-> <<>>, F |-> <<>>]
Good(V, F) == IF \A f \in 1..Len(F) : \A c \in 1..4 : F[f][c] \in 0..(Len(V) - 1) THEN [ok |-> TRUE, V |-> V, F |-> F] ELSE Fail
\* connectivities by position (numbered from 1) and by label
ByPos(F) == Map(LAMBDA f : [c \in 1..4 |-> f[c] - 1], F)
At(labels, x) == LET hit == {n \in 1..Len(labels) : labels[n] = x} IN IF hit = {} THEN -1 ELSE (CHOOSE n \in hit : \A m \in hit : n >= m) - 1
ByLabel(F, labels) == Map(LAMBDA f : [c \in 1..4 |-> At(labels, f[c])], F)
Close3(q) == IF Len(q) = 3 THEN <<q[1], q[2], q[3], q[1]>> ELSE q
IsTri(f) == f[1] = f[4]
Tris(F) == SelectSeq(F, IsTri)
Quads(F) == SelectSeq(F, LAMBDA f : ~IsTri(f))

\* ------------------------------------------------------------------ parsers
\* NAT: symmetries / nodes, faces / coordinates / connectivities
ParseNAT(ls) ==
  IF Len(ls) < 2 \/ ~Ints(ls[1], 2) \/ ~Ints(ls[2], 2) THEN Fail
  ELSE LET n == ls[2][1].i m == ls[2][2].i
           vs == Rows(ls, 3, n) fs == Rows(ls, 3 + n, m)
       IN IF Len(ls) # 2 + n + m \/ (\E q \in 1..Len(vs) : ~Nums(vs[q], 3)) \/ (\E q \in 1..Len(fs) : ~Ints(fs[q], 4)) THEN Fail
          ELSE Good(Map(NumsOf, vs), ByPos(Map(IntsOf, fs)))
\* NEM: nodes / faces / coordinates / connectivities
ParseNEM(ls) ==
  IF Len(ls) < 2 \/ ~Ints(ls[1], 1) \/ ~Ints(ls[2], 1) THEN Fail
  ELSE LET n == ls[1][1].i m == ls[2][1].i
           vs == Rows(ls, 3, n) fs == Rows(ls, 3 + n, m)
       IN IF Len(ls) # 2 + n + m \/ (\E q \in 1..Len(vs) : ~Nums(vs[q], 3)) \/ (\E q \in 1..Len(fs) : ~Ints(fs[q], 4)) THEN Fail
          ELSE Good(Map(NumsOf, vs), ByPos(Map(IntsOf, fs)))
\* MAR: 2, symmetry / number x y z ... 0 / connectivities ... 0
ZeroLn(ln) == Len(ln) >= 1 /\ IsI(ln[1]) /\ ln[1].i = 0
ParseMAR(ls) ==
  IF Len(ls) < 1 \/ ~Ints(ls[1], 2) THEN Fail
  ELSE LET a == FirstAt(ls, 2, ZeroLn) b == IF a = 0 THEN 0 ELSE FirstAt(ls, a + 1, ZeroLn)
       IN IF b = 0 THEN Fail
          ELSE LET vs == SubSeq(ls, 2, a - 1) fs == SubSeq(ls, a + 1, b - 1)
               IN IF (\E q \in 1..Len(vs) : ~NodeLn(vs[q]) \/ vs[q][1].i # q) \/ (\E q \in 1..Len(fs) : ~Ints(fs[q], 4)) THEN Fail
                  ELSE Good(Map(PointOf, vs), ByPos(Map(IntsOf, fs)))
\* GDF: title / length, gravity / symmetries / panels / four points per panel.  The panels share nothing: a soup.
ParseGDF(ls) ==
  IF Len(ls) < 4 \/ Len(ls[2]) < 2 \/ Len(ls[3]) < 2 \/ Len(ls[4]) < 1 THEN Fail
  ELSE IF ~IsI(ls[4][1]) \/ ~IsI(ls[3][1]) \/ ~IsI(ls[3][2]) THEN Fail
  ELSE LET m == ls[4][1].i
           ts == FlattenSeq(SubSeq(ls, 5, Len(ls)))
       IN IF Len(ts) # 12 * m \/ (\E q \in 1..Len(ts) : ~IsN(ts[q])) THEN Fail
          ELSE Good([p \in 1..(4 * m) |-> [c \in 1..3 |-> Num(ts[3 * (p - 1) + c])]], [f \in 1..m |-> [c \in 1..4 |-> 4 * (f - 1) + c - 1]])
GDFSym(ls) == <<ls[3][1].i, ls[3][2].i>>
\* sections: the lines between an opening and the next closing line
Sections(ls, Open(_), Closing(_)) ==
  LET step(acc, ln) == IF acc.in THEN IF Closing(ln) THEN [acc EXCEPT !.in = FALSE] ELSE [acc EXCEPT !.got[Len(acc.got)] = Append(@, ln)]
                       ELSE IF Open(ln) THEN [in |-> TRUE, got |-> Append(acc.got, <<>>)] ELSE acc
      r == FoldLeft(step, [in |-> FALSE, got |-> <<>>], NoBlank(ls))
  IN [closed |-> ~r.in, got |-> r.got]
Sectioned(nodes, fss, conv(_)) ==       \* node lines and the lines of the faces
  IF \E q \in 1..Len(nodes) : ~NodeLn(nodes[q]) THEN Fail
  ELSE LET labels == Map(LAMBDA ln : ln[1].i, nodes)
       IN Good(Map(PointOf, nodes), ByLabel(Map(LAMBDA ln : Close3(conv(ln)), fss), labels))
\* HST
ParseHST(ls) ==
  LET ns == Sections(ls, LAMBDA ln : Starts(ln, "COORDINATES"), LAMBDA ln : Starts(ln, "ENDCOORDINATES"))
      ps == Sections(ls, LAMBDA ln : Starts(ln, "PANEL"), LAMBDA ln : Starts(ln, "ENDPANEL"))
      fs == FlattenSeq(ps.got)
  IN IF ~ns.closed \/ ~ps.closed \/ (\E q \in 1..Len(fs) : ~Ints(fs[q], 4)) THEN Fail ELSE Sectioned(FlattenSeq(ns.got), fs, IntsOf)
\* DAT: $ comments; NODE, ELEMENT of type T3C000 or Q4C000, each up to *RETURN
Ret(ln) == Starts(ln, "*RETURN")
ElemOf(t) == LET m == Len(t) IN [c \in 1..(m - 1) |-> t[c + 1].i]
ParseDAT(ls) ==
  LET ns == Sections(ls, LAMBDA ln : Holds(ln, "NODE") \/ Holds(ln, "*NODE"), Ret)
      el(ty) == Sections(ls, LAMBDA ln : (Holds(ln, "ELEMENT") \/ Holds(ln, "*ELEMENT")) /\ Holds(ln, ty), Ret)
      ts == FlattenSeq(el("T3C000").got) qs == FlattenSeq(el("Q4C000").got)
  IN IF ~ns.closed \/ Len(ns.got) # 1 \/ ~el("T3C000").closed \/ ~el("Q4C000").closed
        \/ (\E q \in 1..Len(ts) : ~Ints(ts[q], 4)) \/ (\E q \in 1..Len(qs) : ~Ints(qs[q], 5)) THEN Fail
     ELSE Sectioned(ns.got[1], ts \o qs, ElemOf)
\* INP: frames, node sets (file, frame, increment) and element sets, in order; the files are lists of node lines, *RETURN, element lines, *RETURN ...
After(ln, w) == LET n == FirstAt(ln, 1, LAMBDA t : IsW(t, w)) IN IF n = 0 \/ n = Len(ln) THEN W("") ELSE ln[n + 1]
ParseINP(ls, files) ==
  LET step(acc, q) ==
        LET ln == ls[q] IN
        IF Starts(ln, "*FRAME") THEN [acc EXCEPT !.frames = Append(@, [name |-> After(ln, "NAME"), t |-> NumsOf(ls[q + 1])])]
        ELSE IF Starts(ln, "*NODE") THEN
            LET f == files[After(ln, "INPUT").s]
                fr == SelectSeq(acc.frames, LAMBDA r : r.name = After(ln, "FRAME"))
                ns == Sections(<< <<W("NODE")>> >> \o f, LAMBDA x : Starts(x, "NODE"), Ret).got[1]
            IN IF fr = <<>> \/ (\E x \in 1..Len(ns) : ~NodeLn(ns[x])) \/ (acc.V # <<>> /\ ~IsW(After(ln, "INCREMENT"), "YES")) THEN [acc EXCEPT !.ok = FALSE]
               ELSE [acc EXCEPT !.V = @ \o Map(LAMBDA x : VAdd(PointOf(x), fr[Len(fr)].t), ns), !.base = Len(acc.V)]
        ELSE IF Starts(ln, "*ELEMENT") THEN
            LET f == files[After(ln, "INPUT").s]
                secs == Sections(<< <<W("OPEN")>> >> \o FlattenSeq(Map(LAMBDA x : IF Ret(x) THEN <<x, <<W("OPEN")>>>> ELSE <<x>>, f)), LAMBDA x : Starts(x, "OPEN"), Ret).got
                labels == Map(LAMBDA x : x[1].i, secs[1])
                used == Len(SelectSeq(acc.used, LAMBDA x : x = After(ln, "INPUT").s))
                nel == Len(SelectSeq(secs, LAMBDA x : x # <<>>)) - 1
                s == secs[2 + (used % nel)]
            IN [acc EXCEPT !.F = @ \o Map(LAMBDA x : [c \in 1..4 |-> LET p == At(labels, Close3(ElemOf(x))[c]) IN IF p < 0 THEN -1 ELSE acc.base + p], s), !.used = Append(@, After(ln, "INPUT").s)]
        ELSE acc
      r == FoldLeft(step, [ok |-> TRUE, frames |-> <<>>, V |-> <<>>, F |-> <<>>, base |-> 0, used |-> <<>>], [q \in 1..Len(ls) |-> q])
  IN IF ~r.ok THEN Fail ELSE Good(r.V, r.F)
\* RAD: /NODE, then /SHELL blocks of lines of seven numbers of which the last four are nodes
ParseRAD(ls) ==
  LET keys == {"/BEGIN", "/TITLE", "/PART", "/MAT", "/PROP", "/NODE", "/SHELL", "/END"}
      key(ln) == Len(ln) >= 1 /\ ln[1].k = "w" /\ ln[1].s \in keys
      keyed(w) == {n \in 1..Len(ls) : Starts(ls[n], w)}
      body(n) == LET e == FirstAt(ls, n + 1, LAMBDA ln : key(ln)) IN SelectSeq(SubSeq(ls, n + 1, IF e = 0 THEN Len(ls) ELSE e - 1), LAMBDA ln : Len(ln) > 0 /\ IsN(ln[1]))
      ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
      ns == FlattenSeq(Map(body, ordered(keyed("/NODE"))))
      fs == FlattenSeq(Map(body, ordered(keyed("/SHELL"))))
  IN IF \E q \in 1..Len(fs) : ~Ints(fs[q], 7) THEN Fail ELSE Sectioned(ns, fs, LAMBDA ln : SubSeq(IntsOf(ln), 4, 7))
\* MSH 2: $Nodes n / label x y z; $Elements m / label type ntags tags nodes; types 2 and 3 are triangles and quadrangles
ParseMSH2(ls) ==
  LET ns == Sections(ls, LAMBDA ln : Starts(ln, "$Nodes"), LAMBDA ln : Starts(ln, "$EndNodes"))
      es == Sections(ls, LAMBDA ln : Starts(ln, "$Elements"), LAMBDA ln : Starts(ln, "$EndElements"))
  IN IF ~ns.closed \/ ~es.closed \/ Len(ns.got) # 1 \/ Len(es.got) # 1 THEN Fail
     ELSE LET nl == ns.got[1] el == es.got[1] IN
          IF Len(nl) < 1 \/ Len(el) < 1 THEN Fail
          ELSE IF ~Ints(nl[1], 1) \/ ~Ints(el[1], 1) THEN Fail
          ELSE IF nl[1][1].i # Len(nl) - 1 \/ el[1][1].i # Len(el) - 1 THEN Fail
          ELSE LET faces == SelectSeq(Tail(el), LAMBDA ln : Len(ln) > 2 /\ ln[2].i \in {2, 3})
                   conv(ln) == LET k == ln[3].i IN SubSeq(IntsOf(ln), 4 + k, Len(ln))
               IN IF \E q \in 1..Len(faces) : Len(faces[q]) # faces[q][2].i + 1 + 3 + faces[q][3].i THEN Fail
                  ELSE Sectioned(Tail(nl), faces, conv)
\* MSH 4: blocks.  $Nodes: blocks nodes min max / dim entity parametric n / n labels / n points;  $Elements: blocks elements min max / dim entity type n / n elements
ParseMSH4(ls) ==
  LET ns == Sections(ls, LAMBDA ln : Starts(ln, "$Nodes"), LAMBDA ln : Starts(ln, "$EndNodes"))
      es == Sections(ls, LAMBDA ln : Starts(ln, "$Elements"), LAMBDA ln : Starts(ln, "$EndElements"))
  IN IF ~ns.closed \/ ~es.closed \/ Len(ns.got) # 1 \/ Len(es.got) # 1 THEN Fail
     ELSE LET nl == ns.got[1] el == es.got[1]
              nstep(acc, q) == IF q < acc.next THEN acc
                               ELSE IF ~Ints(nl[q], 4) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(nl) + 1]
                               ELSE LET n == nl[q][4].i IN
                                    IF q + 2 * n > Len(nl) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(nl) + 1]
                                    ELSE IF \E c \in 1..n : ~Ints(nl[q + c], 1) \/ ~Nums(nl[q + n + c], 3) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(nl) + 1]
                                    ELSE [acc EXCEPT !.labels = @ \o [c \in 1..n |-> nl[q + c][1].i],
                                                     !.V = @ \o [c \in 1..n |-> [d \in 1..3 |-> Num(nl[q + n + c][d])]], !.next = q + 2 * n + 1]
              nr == FoldLeft(nstep, [ok |-> TRUE, next |-> 2, labels |-> <<>>, V |-> <<>>], [q \in 1..(Len(nl)) |-> q])
              estep(acc, q) == IF q < acc.next THEN acc
                               ELSE IF ~Ints(el[q], 4) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(el) + 1]
                               ELSE LET n == el[q][4].i ty == el[q][3].i IN
                                    IF q + n > Len(el) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(el) + 1]
                                    ELSE [acc EXCEPT !.F = @ \o (IF ty \in {2, 3} THEN [c \in 1..n |-> Close3(Tail(IntsOf(el[q + c])))] ELSE <<>>), !.next = q + n + 1]
              er == FoldLeft(estep, [ok |-> TRUE, next |-> 2, F |-> <<>>], [q \in 1..(Len(el)) |-> q])
          IN IF ~nr.ok \/ ~er.ok THEN Fail
             ELSE IF Len(nr.V) # nl[1][2].i THEN Fail
             ELSE Good(nr.V, ByLabel(er.F, nr.labels))
\* TEC: ... N n E m ... QUADRILATERAL then the columns of the nodes (the first three are the coordinates) and the quadrangles
ParseTEC(ls) ==
  LET ts == FlattenSeq(ls)
      n0 == FirstAt(ts, 1, LAMBDA t : IsW(t, "ZONE"))
      kN == FirstAt(ts, n0 + 1, LAMBDA t : IsW(t, "N")) kE == FirstAt(ts, n0 + 1, LAMBDA t : IsW(t, "E"))
      d == FirstAt(ts, n0 + 1, LAMBDA t : IsW(t, "QUADRILATERAL"))
  IN IF n0 = 0 \/ kN = 0 \/ kE = 0 \/ d = 0 THEN Fail
     ELSE LET n == ts[kN + 1].i m == ts[kE + 1].i
              data == SubSeq(ts, d + 1, Len(ts))
              free == Len(data) - 4 * m
          IN IF free < 3 * n \/ free % n # 0 \/ (\E q \in 1..Len(data) : ~IsN(data[q])) \/ (\E q \in (free + 1)..Len(data) : ~IsI(data[q])) THEN Fail
             ELSE LET w == free \div n
                  IN Good([p \in 1..n |-> [c \in 1..3 |-> Num(data[w * (p - 1) + c])]],
                          [f \in 1..m |-> [c \in 1..4 |-> data[free + 4 * (f - 1) + c].i - 1]])
\* OBJ
ParseOBJ(ls) ==
  LET vs == SelectSeq(ls, LAMBDA ln : Starts(ln, "v")) fs == SelectSeq(ls, LAMBDA ln : Starts(ln, "f"))
      ok == /\ \A q \in 1..Len(vs) : Nums(Tail(vs[q]), 3)
            /\ \A q \in 1..Len(fs) : Len(fs[q]) \in {4, 5} /\ \A c \in 2..Len(fs[q]) : IsI(fs[q][c])
  IN IF ~ok THEN Fail ELSE Good(Map(LAMBDA ln : NumsOf(Tail(ln)), vs), ByPos(Map(LAMBDA ln : Close3(IntsOf(Tail(ln))), fs)))
\* legacy VTK
Cells(ids) ==   \* n i1 .. in n i1 .. : the faces, numbered from 0, or <<>> if not well formed
  LET r == FoldLeft(LAMBDA acc, q : IF q < acc.next THEN acc
                                    ELSE IF ids[q] \notin {3, 4} \/ q + ids[q] > Len(ids) THEN [acc EXCEPT !.ok = FALSE, !.next = Len(ids) + 1]
                                    ELSE [acc EXCEPT !.F = Append(@, Close3(SubSeq(ids, q + 1, q + ids[q]))), !.next = q + ids[q] + 1],
                    [ok |-> TRUE, next |-> 1, F |-> <<>>], [q \in 1..Len(ids) |-> q])
  IN r
\* sections follow the points: points and lines, which are not faces, and polygons
VTKSections == {"VERTICES", "LINES", "POLYGONS"}
ParseVTK(ls) ==
  LET ts == FlattenSeq(SubSeq(ls, 3, Len(ls)))
      p == FirstAt(ts, 1, LAMBDA t : IsW(t, "POINTS"))
  IN IF Len(ls) < 3 \/ p = 0 \/ p + 2 > Len(ts) \/ ~(\E q \in 1..p : IsW(ts[q], "ASCII")) \/ ~(\E q \in 1..p : IsW(ts[q], "POLYDATA")) THEN Fail
     ELSE IF ~IsI(ts[p + 1]) THEN Fail
     ELSE LET n == ts[p + 1].i
              at == SetToSortSeq({q \in (p + 3)..Len(ts) : ts[q].k = "w" /\ ts[q].s \in VTKSections}, LAMBDA x, y : x < y)
              end(k) == IF k = Len(at) THEN Len(ts) ELSE at[k + 1] - 1
              whole(k) == /\ at[k] + 2 <= end(k) /\ IsI(ts[at[k] + 1]) /\ IsI(ts[at[k] + 2])
                          /\ at[k] + 2 + ts[at[k] + 2].i = end(k) /\ \A q \in (at[k] + 3)..end(k) : IsI(ts[q])
              vs == SubSeq(ts, p + 3, p + 2 + 3 * n)
              polys == SelectSeq([k \in 1..Len(at) |-> k], LAMBDA k : IsW(ts[at[k]], "POLYGONS"))
          IN IF Len(polys) # 1 \/ (at # <<>> /\ at[1] # p + 3 + 3 * n) \/ (\E k \in 1..Len(at) : ~whole(k)) \/ (\E q \in 1..Len(vs) : ~IsN(vs[q])) THEN Fail
             ELSE LET k == polys[1]
                      cs == Cells(IntsOf(SubSeq(ts, at[k] + 3, end(k))))
                  IN IF ~cs.ok \/ Len(cs.F) # ts[at[k] + 1].i THEN Fail
                     ELSE Good([q \in 1..n |-> [d \in 1..3 |-> Num(vs[3 * (q - 1) + d])]], cs.F)
\* VTU, VTP: XML.  Pieces follow each other; an array is named and its numbers follow the end of its tag.  Cells of less than two dimensions are not faces.
Opens(ts, name) == {n \in 1..(Len(ts) - 1) : IsW(ts[n], "<") /\ IsW(ts[n + 1], name)}
Element(ts, name) ==      \* the contents of the first element of that name
  LET hit == Opens(ts, name)
      a == IF hit = {} THEN 0 ELSE CHOOSE n \in hit : \A m \in hit : n <= m
      b == IF a = 0 THEN 0 ELSE FirstAt(ts, a, LAMBDA t : IsW(t, ">"))
      e == IF b = 0 THEN 0 ELSE FirstAt(ts, b, LAMBDA t : IsW(t, "/" \o name))
  IN IF e = 0 THEN <<>> ELSE SubSeq(ts, b + 1, e - 2)
XArrays(ts) == LET at == SetToSortSeq(Opens(ts, "DataArray"), LAMBDA x, y : x < y)
               IN [k \in 1..Len(at) |-> LET b == FirstAt(ts, at[k], LAMBDA t : IsW(t, ">"))
                                             e == FirstAt(ts, b + 1, LAMBDA t : IsW(t, "<"))
                                         IN [tag |-> SubSeq(ts, at[k], b), data |-> IF e = 0 THEN << W("missing") >> ELSE SubSeq(ts, b + 1, e - 1)]]
XNamed(as, name) == LET hit == {k \in 1..Len(as) : \E n \in 1..(Len(as[k].tag) - 1) : IsW(as[k].tag[n], "Name") /\ IsW(as[k].tag[n + 1], name)}
                    IN IF hit = {} THEN << W("missing") >> ELSE as[CHOOSE k \in hit : \A j \in hit : k <= j].data
XCount(tag, name) == LET a == FirstAt(tag, 1, LAMBDA t : IsW(t, name)) IN IF a = 0 \/ a = Len(tag) THEN -1 ELSE IF IsI(tag[a + 1]) THEN tag[a + 1].i ELSE -1
XPiece(ts, kind) ==       \* ts: from the tag of the piece to its end
  LET tag == SubSeq(ts, 1, FirstAt(ts, 1, LAMBDA t : IsW(t, ">")))
      grid == kind = "UnstructuredGrid"
      pas == XArrays(Element(ts, "Points"))
      ps == IF pas = <<>> THEN <<>> ELSE pas[1].data
      cas == XArrays(Element(ts, IF grid THEN "Cells" ELSE "Polys"))
      n == XCount(tag, "NumberOfPoints") m == XCount(tag, IF grid THEN "NumberOfCells" ELSE "NumberOfPolys")
      none == m = 0 \/ (~grid /\ m = -1)
      ids == XNamed(cas, "connectivity") off == XNamed(cas, "offsets") types == XNamed(cas, "types")
  IN IF Len(ps) # 3 * n \/ \E q \in 1..Len(ps) : ~IsN(ps[q]) THEN Fail
     ELSE LET V == [q \in 1..n |-> [d \in 1..3 |-> Num(ps[3 * (q - 1) + d])]] IN
     IF none THEN Good(V, <<>>)
     ELSE IF Len(off) # m \/ (\E q \in 1..Len(ids) : ~IsI(ids[q])) \/ (\E q \in 1..Len(off) : ~IsI(off[q]))
             \/ (grid /\ (Len(types) # m \/ \E q \in 1..Len(types) : ~IsI(types[q]))) THEN Fail
     ELSE LET from(f) == IF f = 1 THEN 0 ELSE off[f - 1].i
              wide(f) == off[f].i - from(f)
              flat(f) == grid /\ types[f].i \in {1, 2, 3, 4}
              faces == SelectSeq([f \in 1..m |-> f], LAMBDA f : ~flat(f))
          IN IF off[m].i # Len(ids) \/ (\E f \in 1..m : wide(f) < 1) THEN Fail
             ELSE IF \E k \in 1..Len(faces) : LET f == faces[k] IN wide(f) \notin {3, 4} \/ (grid /\ types[f].i \notin {IF wide(f) = 3 THEN 5 ELSE 9, 7}) THEN Fail
             ELSE Good(V, Map(LAMBDA f : Close3([c \in 1..wide(f) |-> ids[from(f) + c].i]), faces))
\* meshes one after the other
Join(ms) == FoldLeft(LAMBDA acc, m : [V |-> acc.V \o m.V, F |-> acc.F \o Map(LAMBDA f : [c \in 1..4 |-> f[c] + Len(acc.V)], m.F)], [V |-> <<>>, F |-> <<>>], ms)
ParseXML(ls, kind) ==
  LET ts == FlattenSeq(ls)
      at == SetToSortSeq(Opens(ts, "Piece"), LAMBDA x, y : x < y)
      end(k) == FirstAt(ts, at[k], LAMBDA t : IsW(t, "/Piece"))
  IN IF ~Holds(ts, kind) \/ at = <<>> \/ ~Holds(ts, "/VTKFile") \/ (\E k \in 1..Len(at) : end(k) = 0) THEN Fail
     ELSE LET ms == TLCEval([k \in 1..Len(at) |-> XPiece(SubSeq(ts, at[k], end(k)), kind)])
          IN IF \E k \in 1..Len(ms) : ~ms[k].ok THEN Fail ELSE LET j == Join(ms) IN Good(j.V, j.F)
\* STL: facets of three points.  A soup.
ParseSTL(ls) ==
  LET b == NoBlank(ls)
      m == (Len(b) - 2) \div 7
      facet(f) == SubSeq(b, 2 + 7 * (f - 1), 1 + 7 * f)
      okf(x) == /\ Len(x[1]) = 5 /\ IsW(x[1][1], "facet") /\ IsW(x[1][2], "normal") /\ Nums(SubSeq(x[1], 3, 5), 3)
                /\ Starts(x[2], "outer") /\ Starts(x[6], "endloop") /\ Starts(x[7], "endfacet")
                /\ \A c \in 3..5 : Len(x[c]) = 4 /\ IsW(x[c][1], "vertex") /\ Nums(Tail(x[c]), 3)
  IN IF Len(b) < 2 \/ Len(b) # 2 + 7 * m \/ ~Starts(b[1], "solid") \/ ~Starts(b[Len(b)], "endsolid") \/ (\E f \in 1..m : ~okf(facet(f))) THEN Fail
     ELSE Good([p \in 1..(3 * m) |-> NumsOf(Tail(facet((p - 1) \div 3 + 1)[3 + ((p - 1) % 3)]))],
               [f \in 1..m |-> <<3 * f - 3, 3 * f - 2, 3 * f - 1, 3 * f - 3>>])
STLNormals(ls) == LET b == NoBlank(ls) IN [f \in 1..((Len(b) - 2) \div 7) |-> NumsOf(SubSeq(b[2 + 7 * (f - 1)], 3, 5))]
\* PNL: three lines / panels nodes symmetries / two lines / nodes / three lines / number corners nodes / ...
ParsePNL(ls) ==
  IF Len(ls) < 6 \/ ~Ints(ls[4], 4) THEN Fail
  ELSE LET m == ls[4][1].i n == ls[4][2].i
           vs == Rows(ls, 7, n) fs == Rows(ls, 10 + n, m)
       IN IF ls[4][3].i # 0 \/ ls[4][4].i # 0 \/ Len(ls) < 9 + n + m
             \/ (\E q \in 1..Len(vs) : ~NodeLn(vs[q]) \/ vs[q][1].i # q)
             \/ (\E q \in 1..Len(fs) : Len(fs[q]) < 2 \/ ~Ints(fs[q], Len(fs[q])) \/ fs[q][1].i # q \/ fs[q][2].i \notin {3, 4} \/ Len(fs[q]) # 2 + fs[q][2].i) THEN Fail
          ELSE Good(Map(PointOf, vs), ByPos(Map(LAMBDA ln : Close3(Tail(Tail(IntsOf(ln)))), fs)))
\* WRL: VRML 2.0; point [ x y z ... ], coordIndex [ a b c -1 ... ]
Bracket(ts, name) == LET a == FirstAt(ts, 1, LAMBDA t : IsW(t, name))
                         e == IF a = 0 THEN 0 ELSE FirstAt(ts, a + 1, LAMBDA t : IsW(t, "]"))
                     IN IF e = 0 THEN << W("missing") >> ELSE SubSeq(ts, a + 2, e - 1)
\* the shapes follow each other; each is where the transformations around it put it: scaled, turned, moved, the innermost first
TurnOf(u, a) == LET n == Norm(u) k == <<FDiv(u[1], n), FDiv(u[2], n), FDiv(u[3], n)>> c == FCos(a) sn == FSin(a)
                IN [i \in 1..3 |-> [j \in 1..3 |->
                     FAdd(FMul(FSub(One, c), FMul(k[i], k[j])),
                          IF i = j THEN c ELSE LET q == FMul(sn, k[6 - i - j]) IN IF (j - i + 3) % 3 = 1 THEN FNeg(q) ELSE q)]]
WShape(ts) ==
  LET ps == Bracket(ts, "point") ids == Bracket(ts, "coordIndex")
  IN IF Len(ps) % 3 # 0 \/ (\E q \in 1..Len(ps) : ~IsN(ps[q])) \/ (\E q \in 1..Len(ids) : ~IsI(ids[q])) THEN Fail
     ELSE LET ends == SetToSortSeq({q \in 1..Len(ids) : ids[q].i = -1}, LAMBDA a, b : a < b)
              cell(f) == IntsOf(SubSeq(ids, IF f = 1 THEN 1 ELSE ends[f - 1] + 1, ends[f] - 1))
          IN IF \E f \in 1..Len(ends) : Len(cell(f)) \notin {3, 4} THEN Fail
             ELSE Good([q \in 1..(Len(ps) \div 3) |-> [d \in 1..3 |-> Num(ps[3 * (q - 1) + d])]], [f \in 1..Len(ends) |-> Close3(cell(f))])
ParseWRL(ls) ==
  LET ts == FlattenSeq(ls)
      \* the brace that closes the one opened at n
      depth == TLCEval(FoldLeft(LAMBDA acc, t : Append(acc, acc[Len(acc)] + (IF IsW(t, "{") THEN 1 ELSE IF IsW(t, "}") THEN -1 ELSE 0)), <<0>>, ts))
      closing(n) == LET hit == {q \in (n + 1)..Len(ts) : IsW(ts[q], "}") /\ depth[q + 1] = depth[n]} IN IF hit = {} THEN 0 ELSE CHOOSE q \in hit : \A r \in hit : q <= r
      shapes == SetToSortSeq({n \in 1..(Len(ts) - 1) : IsW(ts[n], "Shape") /\ IsW(ts[n + 1], "{")}, LAMBDA a, b : a < b)
      groups == SetToSortSeq({n \in 1..(Len(ts) - 1) : IsW(ts[n], "Transform") /\ IsW(ts[n + 1], "{")}, LAMBDA a, b : a > b)      \* innermost first
      field(n, name, k, other) == LET c == FirstAt(ts, n, LAMBDA t : IsW(t, "children"))
                                      hit == {q \in (n + 2)..(c - 1) : IsW(ts[q], name)}
                                  IN IF hit = {} THEN other ELSE LET q == CHOOSE q \in hit : TRUE IN NumsOf(SubSeq(ts, q + 1, q + k))
      move(n) == LET t == field(n, "translation", 3, VZero) sc == field(n, "scale", 3, <<One, One, One>>) r == field(n, "rotation", 4, <<Zero, Zero, One, Zero>>)
                 IN [t |-> t, m |-> TLCEval(MMul(TurnOf(<<r[1], r[2], r[3]>>, r[4]), << <<sc[1], Zero, Zero>>, <<Zero, sc[2], Zero>>, <<Zero, Zero, sc[3]>> >>))]
      placed(n) == LET around == SelectSeq(groups, LAMBDA g : g < n /\ closing(g + 1) > n)
                       ms == TLCEval(Map(move, around))
                       m == WShape(SubSeq(ts, n, closing(n + 1)))
                   IN [m EXCEPT !.V = Map(LAMBDA p : FoldLeft(LAMBDA q, x : VAdd(MVec(x.m, q), x.t), p, ms), @)]
  IN IF ls = <<>> THEN Fail
     ELSE IF ~Holds(ls[1], "V2.0") \/ shapes = <<>> \/ depth[Len(depth)] # 0 \/ Cardinality({n \in 1..Len(ts) : IsW(ts[n], "[")}) # Cardinality({n \in 1..Len(ts) : IsW(ts[n], "]")}) THEN Fail
     ELSE LET ms == TLCEval([k \in 1..Len(shapes) |-> placed(shapes[k])])
          IN IF \E k \in 1..Len(ms) : ~ms[k].ok THEN Fail ELSE LET j == Join(ms) IN Good(j.V, j.F)
\* MED: arrays stored by component: all x, then all y, then all z; all first corners, then all second ones ... ; numbered from 1
ParseMED(ls) ==
  LET arr(name) == LET n == FirstAt(ls, 1, LAMBDA ln : Starts(ln, name)) IN IF n = 0 THEN <<>> ELSE Tail(ls[n])
      v == arr("COO") t == arr("TR3") q == arr("QU4")
      nv == Len(v) \div 3 nt == Len(t) \div 3 nq == Len(q) \div 4
  IN Good([p \in 1..nv |-> [d \in 1..3 |-> Num(v[nv * (d - 1) + p])]],
          [f \in 1..nt |-> Close3([c \in 1..3 |-> t[nt * (c - 1) + f].i - 1])] \o [f \in 1..nq |-> [c \in 1..4 |-> q[nq * (c - 1) + f].i - 1]])

Parse(fmt, ls) == CASE fmt = "nat" -> ParseNAT(ls) [] fmt = "nem" -> ParseNEM(ls) [] fmt = "mar" -> ParseMAR(ls) [] fmt = "gdf" -> ParseGDF(ls)
                    [] fmt = "hst" -> ParseHST(ls) [] fmt = "dat" -> ParseDAT(ls) [] fmt = "rad" -> ParseRAD(ls) [] fmt = "msh2" -> ParseMSH2(ls)
                    [] fmt = "msh4" -> ParseMSH4(ls) [] fmt = "tec" -> ParseTEC(ls) [] fmt = "obj" -> ParseOBJ(ls) [] fmt = "vtk" -> ParseVTK(ls)
                    [] fmt = "vtu" -> ParseXML(ls, "UnstructuredGrid") [] fmt = "vtp" -> ParseXML(ls, "PolyData") [] fmt = "stl" -> ParseSTL(ls)
                    [] fmt = "pnl" -> ParsePNL(ls) [] fmt = "wrl" -> ParseWRL(ls) [] fmt = "med" -> ParseMED(ls) [] OTHER -> Fail

\* ------------------------------------------------------------------ layouts
\* o.lab: the number of each node;  o.split: how things are cut into sections, lines, columns;  o.blank: blank and comment lines
Is(q) == Map(I, q)
Xs(p) == Map(X, p)
Lab(o, f) == [c \in 1..Len(f) |-> o.lab[f[c] + 1]]
Pos(f) == [c \in 1..Len(f) |-> f[c] + 1]
Short(f, g) == IF IsTri(f) THEN SubSeq(g, 1, 3) ELSE g
NodeRow(m, o, n) == <<I(o.lab[n])>> \o Xs(m.V[n])
NodeRows(m, o) == [n \in 1..Len(m.V) |-> NodeRow(m, o, n)]
If(c, s) == IF c THEN s ELSE <<>>
\* a sequence cut into k consecutive pieces
Piece(s, k, n) == SubSeq(s, ((n - 1) * Len(s)) \div k + 1, (n * Len(s)) \div k)
Pieces(s, k) == SelectSeq([n \in 1..k |-> Piece(s, k, n)], LAMBDA x : x # <<>>)
Blank(o) == If(o.blank, << <<>> >>)
LayNAT(m, o) == << Is(<<0, 0>>), Is(<<Len(m.V), Len(m.F)>>) >> \o Map(Xs, m.V) \o Map(LAMBDA f : Is(Pos(f)), m.F)
LayNEM(m, o) == << Is(<<Len(m.V)>>), Is(<<Len(m.F)>>) >> \o Map(Xs, m.V) \o Map(LAMBDA f : Is(Pos(f)), m.F)
LayMAR(m, o) == << Is(<<2, 0>>) >> \o [n \in 1..Len(m.V) |-> <<I(n)>> \o Xs(m.V[n])] \o << Is(<<0, 0, 0, 0>>) >>
                \o Map(LAMBDA f : Is(Pos(f)), m.F) \o << Is(<<0, 0, 0, 0>>) >>
LayGDF(m, o) == << <<W("a"), W("ship")>>, Xs(<<One, FDivI(FInt(981), 100)>>) \o If(o.blank, <<W("ULEN"), W("GRAV")>>),
                   Is(<<0, 0>>) \o If(o.blank, <<W("ISX"), W("ISY")>>), Is(<<Len(m.F)>>) >>
                \o FlattenSeq(Map(LAMBDA f : LET p == [c \in 1..4 |-> Xs(m.V[f[c] + 1])]
                                             IN CASE o.split = 1 -> p [] o.split = 2 -> <<p[1] \o p[2], p[3] \o p[4]>> [] OTHER -> <<FlattenSeq(p)>>, m.F))
LayHST(m, o) == << <<W("PROJECT:"), W("ship")>>, <<W("USERS:")>> >> \o Blank(o) \o << <<W("NBODY"), I(1)>>, <<W("RHO"), X(FInt(1025))>>, <<W("GRAVITY"), X(FDivI(FInt(981), 100))>> >> \o Blank(o)
                \o FlattenSeq(Map(LAMBDA s : << <<W("COORDINATES")>> >> \o s \o << <<W("ENDCOORDINATES")>> >> \o Blank(o), Pieces(NodeRows(m, o), o.split)))
                \o FlattenSeq(Map(LAMBDA s : << <<W("PANEL"), W("TYPE"), I(0)>> >> \o s \o << <<W("ENDPANEL")>> >> \o Blank(o), Pieces(Map(LAMBDA f : Is(Lab(o, f)), m.F), o.split)))
                \o << <<W("ENDFILE")>> >>
DatFaces(m, o, tri) == LET fs == SelectSeq([f \in 1..Len(m.F) |-> f], LAMBDA f : IsTri(m.F[f]) = tri)
                       IN Map(LAMBDA f : <<I(f)>> \o Is(Short(m.F[f], Lab(o, m.F[f]))), fs)
Elem(ty) == <<W("$"), W("ELEMENT"), G(","), W("TYPE"), G("="), W(ty), G(","), W("ELSTRUCTURE"), G("="), W("SHIP")>>
LayDAT(m, o) ==
  LET sec(ty, tri) == FlattenSeq(Map(LAMBDA s : If(o.blank, << <<W("$")>> >>) \o << Elem(ty) >> \o s \o << <<W("*RETURN")>> >>, Pieces(DatFaces(m, o, tri), o.split)))
      nodes == If(o.blank, << <<W("$")>>, <<W("$"), W("made"), W("by"), W("hand")>>, <<W("$")>> >>)
               \o << <<W("$"), W("NODE")>> >> \o NodeRows(m, o) \o << <<W("*RETURN")>> >>
  IN nodes \o (IF o.split = 2 THEN sec("T3C000", TRUE) \o sec("Q4C000", FALSE) ELSE sec("Q4C000", FALSE) \o sec("T3C000", TRUE))
LayRAD(m, o) == << <<W("/BEGIN")>>, <<W("ship")>>, <<W("/NODE")>> >> \o NodeRows(m, o)
                \o FlattenSeq(LET s == Pieces([f \in 1..Len(m.F) |-> <<I(f), I(0), I(0)>> \o Is(Lab(o, m.F[f]))], o.split)
                               IN [n \in 1..Len(s) |-> << <<W("/SHELL"), G("/"), I(n)>> >> \o s[n]])
                \o << <<W("/END")>> >>
\* other elements (points, lines) stand between the faces
LayMSH2(m, o) ==
  LET tags == IF o.split = 1 THEN <<2, 0, 1>> ELSE IF o.split = 2 THEN <<0>> ELSE <<3, 1, 2, 7>>
      other == If(o.blank, << <<I(901), I(15)>> \o Is(tags) \o <<I(o.lab[1])>>, <<I(902), I(1)>> \o Is(tags) \o <<I(o.lab[1]), I(o.lab[2])>> >>)
      els == other \o [f \in 1..Len(m.F) |-> <<I(f), I(IF IsTri(m.F[f]) THEN 2 ELSE 3)>> \o Is(tags) \o Is(Short(m.F[f], Lab(o, m.F[f])))]
  IN << <<W("$MeshFormat")>>, <<W("2.2"), I(0), I(8)>>, <<W("$EndMeshFormat")>>, <<W("$Nodes")>>, <<I(Len(m.V))>> >> \o NodeRows(m, o)
     \o << <<W("$EndNodes")>>, <<W("$Elements")>>, <<I(Len(els))>> >> \o els \o << <<W("$EndElements")>> >>
LayMSH4(m, o) ==
  LET nb == Pieces([n \in 1..Len(m.V) |-> n], o.split)
      node(b) == << Is(<<2, b, 0, Len(nb[b])>>) >> \o Map(LAMBDA n : <<I(o.lab[n])>>, nb[b]) \o Map(LAMBDA n : Xs(m.V[n]), nb[b])
      blk(tri) == DatFaces(m, o, tri)
      pieces(tri) == Pieces(blk(tri), o.split)
      elb == (IF o.blank THEN << [ty |-> 15, s |-> << <<I(901), I(o.lab[1])>> >>], [ty |-> 1, s |-> << <<I(902), I(o.lab[1]), I(o.lab[2])>> >>] >> ELSE <<>>)
             \o Map(LAMBDA s : [ty |-> 2, s |-> s], pieces(TRUE)) \o Map(LAMBDA s : [ty |-> 3, s |-> s], pieces(FALSE))
      el(b) == << Is(<<IF elb[b].ty = 15 THEN 0 ELSE IF elb[b].ty = 1 THEN 1 ELSE 2, b, elb[b].ty, Len(elb[b].s)>>) >> \o elb[b].s
      lo == CHOOSE x \in Range(o.lab) : \A y \in Range(o.lab) : x <= y
      hi == CHOOSE x \in Range(o.lab) : \A y \in Range(o.lab) : x >= y
      ne == Len(m.F) + (IF o.blank THEN 2 ELSE 0)
  IN << <<W("$MeshFormat")>>, <<W("4.1"), I(0), I(8)>>, <<W("$EndMeshFormat")>>, <<W("$Nodes")>>, Is(<<Len(nb), Len(m.V), lo, hi>>) >>
     \o FlattenSeq([b \in 1..Len(nb) |-> node(b)]) \o << <<W("$EndNodes")>>, <<W("$Elements")>>, Is(<<Len(elb), ne, 1, IF o.blank THEN 902 ELSE ne>>) >>
     \o FlattenSeq([b \in 1..Len(elb) |-> el(b)]) \o << <<W("$EndElements")>> >>
LayTEC(m, o) ==
  LET more(n) == IF o.split = 1 THEN <<>> ELSE Xs(<<FInt(n), FDivI(FInt(n), 2)>>)
  IN If(o.blank, << <<W("TITLE"), G("="), W("ship")>> >>) \o << <<W("VARIABLES"), G("="), W("X"), G(","), W("Y"), G(","), W("Z")>>,
        <<W("ZONE"), W("T"), G("="), W("MESH")>>,
        <<W("N"), G("="), I(Len(m.V)), G(","), W("E"), G("="), I(Len(m.F)), G(","), W("F"), G("="), W("FEPOINT"), G(","), W("ET"), G("="), W("QUADRILATERAL")>> >>
     \o [n \in 1..Len(m.V) |-> Xs(m.V[n]) \o more(n)] \o Blank(o) \o Map(LAMBDA f : Is(Pos(f)), m.F)
LayOBJ(m, o) ==
  LET v == [n \in 1..Len(m.V) |-> <<W("v")>> \o Xs(m.V[n])]
      f == Map(LAMBDA q : <<W("f")>> \o Is(Short(q, Pos(q))), m.F)
  IN If(o.blank, << <<W("#"), W("ship")>>, <<>> >>) \o If(o.split > 1, << <<W("o"), W("ship")>> >>) \o v \o Blank(o) \o If(o.blank, << <<W("#"), W("faces")>> >>) \o f
\* o.extra: what stands in the file besides the faces (1: nothing, 2: points, 3: lines, 5: both)
HasPoints(o) == o.extra \in {2, 5}
HasLines(o) == o.extra \in {3, 5}
LayVTK(m, o) ==
  LET cell(f) == LET q == Short(f, f) IN <<I(Len(q))>> \o Is(q)
      size == FoldLeft(LAMBDA acc, f : acc + Len(cell(f)), 0, m.F)
      pts == Map(Xs, m.V)
  IN << <<W("#"), W("vtk"), W("DataFile"), W("Version"), W("3.0")>>, <<W("a"), W("ship")>>, <<W("ASCII")>>, <<W("DATASET"), W("POLYDATA")>>, <<W("POINTS"), I(Len(m.V)), W(IF o.split = 1 THEN "float" ELSE "double")>> >>
     \o (IF o.split = 3 THEN << FlattenSeq(pts) >> ELSE pts) \o Blank(o)
     \o If(HasPoints(o), << <<W("VERTICES"), I(2), I(4)>>, Is(<<1, 0>>), Is(<<1, 2>>) >>)
     \o If(HasLines(o), << <<W("LINES"), I(1), I(4)>>, Is(<<3, 2, 1, 0>>) >>)
     \o << <<W("POLYGONS"), I(Len(m.F)), I(size)>> >> \o Map(cell, m.F)
Tag(w) == <<W("<"), W(w), W(">")>>
Attr(n, w) == <<G(" "), W(n), G("=\""), W(w), G("\"")>>
AttrI(n, i) == <<G(" "), W(n), G("=\""), I(i), G("\"")>>
XArr(o, ty, name, rows) == << <<W("<"), W("DataArray")>> \o Attr("type", ty) \o Attr("Name", name) \o (IF name = "Points" THEN AttrI("NumberOfComponents", 3) ELSE <<>>) \o Attr("format", "ascii") \o <<W(">")>> >>
                           \o (IF o.split = 3 THEN << FlattenSeq(rows) >> ELSE rows) \o << <<W("<"), W("/DataArray"), W(">")>> >>
XCells(o, name, cells, types) ==      \* cells: sequences of vertex numbers
  LET ends == [k \in 1..Len(cells) |-> FoldLeft(LAMBDA acc, q : acc + Len(q), 0, SubSeq(cells, 1, k))]
  IN << Tag(name) >> \o XArr(o, "Int64", "connectivity", Map(Is, cells)) \o XArr(o, "Int64", "offsets", <<Is(ends)>>)
     \o (IF types = <<>> THEN <<>> ELSE XArr(o, "UInt8", "types", <<Is(types)>>)) \o << <<W("<"), W("/" \o name), W(">")>> >>
XPoints(m, o) == << Tag("Points") >> \o XArr(o, IF o.split = 1 THEN "Float32" ELSE "Float64", "Points", Map(Xs, m.V)) \o << <<W("<"), W("/Points"), W(">")>> >>
XFile(o, kind, pieces) == << <<W("<"), W("VTKFile")>> \o Attr("type", kind) \o Attr("version", "0.1") \o Attr("byte_order", "LittleEndian") \o <<W(">")>>, Tag(kind) >>
                          \o FlattenSeq(pieces) \o << <<W("<"), W("/" \o kind), W(">")>>, <<W("<"), W("/VTKFile"), W(">")>> >>
Points2 == << <<0>>, <<2>> >>
Lines1 == << <<2, 1, 0>> >>
LayVTU(ms, o) ==
  LET piece(m) ==
        LET qs == Map(LAMBDA f : Short(f, f), m.F)
            h == Len(qs) \div 2
            cells == (IF HasPoints(o) THEN Points2 ELSE <<>>) \o SubSeq(qs, 1, h) \o (IF HasLines(o) THEN Lines1 ELSE <<>>) \o SubSeq(qs, h + 1, Len(qs))
            types == Map(LAMBDA q : IF Len(q) = 1 THEN 1 ELSE IF q = Lines1[1] /\ HasLines(o) THEN 4
                                ELSE IF o.solid /\ q = qs[1] THEN (IF Len(q) = 4 THEN (IF o.split = 3 THEN 8 ELSE 10) ELSE 6)     \* pixel, tetrahedron, strip
                                ELSE IF o.blank THEN 7 ELSE IF Len(q) = 3 THEN 5 ELSE IF Len(q) = 4 THEN 9 ELSE 7, cells)
        IN << <<W("<"), W("Piece")>> \o AttrI("NumberOfPoints", Len(m.V)) \o AttrI("NumberOfCells", Len(cells)) \o <<W(">")>> >>
           \o XPoints(m, o) \o XCells(o, "Cells", cells, types) \o << <<W("<"), W("/Piece"), W(">")>> >>
  IN XFile(o, "UnstructuredGrid", Map(piece, ms))
LayVTP(ms, o) ==
  LET piece(m) ==
        << <<W("<"), W("Piece")>> \o AttrI("NumberOfPoints", Len(m.V)) \o If(HasPoints(o), AttrI("NumberOfVerts", 2)) \o If(HasLines(o), AttrI("NumberOfLines", 1))
           \o AttrI("NumberOfPolys", Len(m.F)) \o <<W(">")>> >>
        \o XPoints(m, o) \o (IF HasPoints(o) THEN XCells(o, "Verts", Points2, <<>>) ELSE <<>>) \o (IF HasLines(o) THEN XCells(o, "Lines", Lines1, <<>>) ELSE <<>>)
        \o XCells(o, "Polys", Map(LAMBDA f : Short(f, f), m.F), <<>>) \o << <<W("<"), W("/Piece"), W(">")>> >>
  IN XFile(o, "PolyData", Map(piece, ms))
\* triangles only: the mesh is that of the halves of its quadrangles
Halves(F) == FlattenSeq(Map(LAMBDA f : IF IsTri(f) THEN <<f>> ELSE << <<f[1], f[2], f[3], f[1]>>, <<f[1], f[3], f[4], f[1]>> >>, F))
Split(F) == Map(LAMBDA f : IF IsTri(f) THEN <<f>> ELSE << <<f[1], f[2], f[3], f[1]>>, <<f[1], f[3], f[4], f[1]>> >>, F)
LaySTL(m, o) ==
  << <<W("solid"), W("ship")>> >>
  \o FlattenSeq(Map(LAMBDA f : << <<W("facet"), W("normal")>> \o Xs(<<Zero, Zero, One>>), <<W("outer"), W("loop")>> >>
                               \o [c \in 1..3 |-> <<W("vertex")>> \o Xs(m.V[f[c] + 1])] \o << <<W("endloop")>>, <<W("endfacet")>> >>, Halves(m.F)))
  \o << <<W("endsolid"), W("ship")>> >>
LayPNL(m, o) ==
  << <<W("HULL")>>, <<>>, <<W("#")>>, Is(<<Len(m.F), Len(m.V), 0, 0>>), <<>>, <<W("#")>> >> \o [n \in 1..Len(m.V) |-> <<I(n)>> \o Xs(m.V[n])]
  \o << <<W("#")>>, <<>>, <<W("#")>> >> \o [f \in 1..Len(m.F) |-> LET q == Short(m.F[f], Pos(m.F[f])) IN <<I(f), I(Len(q))>> \o Is(q)] \o << <<W("#")>> >>
WRLShape(m, o) ==
  << <<W("Shape"), W("{")>>, <<W("geometry"), W("IndexedFaceSet"), W("{")>>, <<W("coord"), W("Coordinate"), W("{"), W("point"), W("[")>> >>
  \o [n \in 1..Len(m.V) |-> Xs(m.V[n]) \o If(o.split > 1, <<G(",")>>)] \o << <<W("]"), W("}")>>, <<W("coordIndex"), W("[")>> >>
  \o Map(LAMBDA f : FlattenSeq(Map(LAMBDA n : <<I(n)>> \o If(o.split > 1, <<G(",")>>), Short(f, f))) \o <<I(-1)>> \o If(o.split > 1, <<G(",")>>), m.F) \o << <<W("]"), W("}"), W("}")>> >>
WRLGroup(fields, body) == << <<W("Transform"), W("{")>> >> \o fields \o << <<W("children"), W("[")>> >> \o body \o << <<W("]"), W("}")>> >>
\* ms: two meshes.  o.extra: 1: a shape; 2: a shape moved; 3: two shapes, the second scaled and moved; 5: shapes in groups within groups
WMove(t) == <<W("translation")>> \o Xs(t)
WTurn(u, a) == <<W("rotation")>> \o Is(u) \o <<I(a)>>
WScale(k) == <<W("scale")>> \o Is(<<k, k, k>>)
T1W == <<FInt(5), FInt(-2), FDivI(One, 4)>>
T2W == <<FDivI(FInt(-3), 8), Zero, FInt(7)>>
LayWRL(ms, o) ==
  << <<W("#VRML"), W("V2.0"), W("utf8")>> >> \o If(o.blank, << <<W("#"), W("ship")>>, <<>> >>)
  \o CASE o.extra = 1 -> WRLShape(ms[1], o)
       [] o.extra = 2 -> WRLGroup(<<WMove(T1W)>>, WRLShape(ms[1], o))
       [] o.extra = 3 -> WRLShape(ms[1], o) \o WRLGroup(<<WScale(2), WMove(T1W)>>, WRLShape(ms[2], o))
       [] OTHER -> WRLGroup(<<WTurn(<<0, 0, 1>>, 2), WMove(T2W)>>,
                            WRLShape(ms[1], o) \o WRLGroup(<<WMove(T1W), WTurn(<<1, 2, -2>>, 1), WScale(3)>>, WRLShape(ms[2], o)))
\* what it describes
WRLMesh(ms, o) ==
  LET put(k, u, a, t, m) == LET r == MScale(FInt(k), TurnOf(u, a)) IN [m EXCEPT !.V = Map(LAMBDA p : VAdd(MVec(r, p), t), @)]
      z == <<Zero, Zero, One>>
  IN CASE o.extra = 1 -> ms[1]
       [] o.extra = 2 -> put(1, z, Zero, T1W, ms[1])
       [] o.extra = 3 -> Join(<<ms[1], put(2, z, Zero, T1W, ms[2])>>)
       [] OTHER -> put(1, z, FInt(2), T2W, Join(<<ms[1], put(3, <<One, FInt(2), FInt(-2)>>, One, T1W, ms[2])>>))
LayMED(m, o) ==
  LET comp(fs, k) == FlattenSeq([c \in 1..k |-> Map(LAMBDA f : I(f[c] + 1), fs)])
  IN << <<W("COO")>> \o FlattenSeq([d \in 1..3 |-> Map(LAMBDA p : X(p[d]), m.V)]) >>
     \o If(Tris(m.F) # <<>>, << <<W("TR3")>> \o comp(Tris(m.F), 3) >>) \o If(Quads(m.F) # <<>>, << <<W("QU4")>> \o comp(Quads(m.F), 4) >>)
Layout(fmt, m, o) == CASE fmt = "nat" -> LayNAT(m, o) [] fmt = "nem" -> LayNEM(m, o) [] fmt = "mar" -> LayMAR(m, o) [] fmt = "gdf" -> LayGDF(m, o)
                       [] fmt = "hst" -> LayHST(m, o) [] fmt = "dat" -> LayDAT(m, o) [] fmt = "rad" -> LayRAD(m, o) [] fmt = "msh2" -> LayMSH2(m, o)
                       [] fmt = "msh4" -> LayMSH4(m, o) [] fmt = "tec" -> LayTEC(m, o) [] fmt = "obj" -> LayOBJ(m, o) [] fmt = "vtk" -> LayVTK(m, o)
                       [] fmt = "stl" -> LaySTL(m, o) [] fmt = "pnl" -> LayPNL(m, o) [] fmt = "med" -> LayMED(m, o)
\* INP: bodies, each a file and a frame; the files hold node lines and one or two blocks of element lines
BodyFile(m, o) == NodeRows(m, o) \o << <<W("*RETURN")>> >> \o FlattenSeq(Map(LAMBDA tri : LET b == DatFaces(m, o, tri) IN If(b # <<>>, b \o << <<W("*RETURN")>> >>), <<FALSE, TRUE>>))
LayINP(bodies, frames, o) ==       \* bodies: <<[file, frame, blocks]>>
  << <<W("*DIODORE"), G(","), W("PASS"), G("="), W("ECN")>>, <<W("$")>> >>
  \o FlattenSeq([n \in 1..Len(frames) |-> << <<W("*FRAME"), G(","), W("NAME"), G("="), W(frames[n].name)>>,
                                              <<X(frames[n].t[1]), G(","), X(frames[n].t[2]), G(","), X(frames[n].t[3])>> >> \o Blank(o)])
  \o FlattenSeq([n \in 1..Len(bodies) |->
        << <<W("*NODE"), G(","), W("INPUT"), G("="), W(bodies[n].file), G(","), W("FRAME"), G("="), W(bodies[n].frame)>>
           \o If(n > 1, <<G(","), W("INCREMENT"), G("="), W("YES")>>) >>
        \o Map(LAMBDA ty : <<W("*ELEMENT"), G(","), W("INPUT"), G("="), W(bodies[n].file), G(","), W("TYPE"), G("="), W(ty), G(","), W("ELSTRUCTURE"), G("="), W(bodies[n].file)>>, bodies[n].types)
        \o If(o.blank, << <<W("$")>> >>)])
\* the formats that list the triangles apart from the quadrangles
Grouped == {"dat", "msh2", "msh4", "med"}
\* the formats of separate panels
Soup == {"gdf", "stl"}
\* the formats that announce or mark the end of what they hold, so that a cut file is not one
Counted == {"nat", "nem", "mar", "gdf", "msh2", "msh4", "tec", "pnl", "vtk", "vtu", "vtp", "stl", "wrl"}
\* the formats made of sections, each with its end: a file cut inside one is refused
Sectional == {"hst", "dat"}
SameFaces(fmt, F, H) == IF fmt \in Grouped THEN Tris(F) = Tris(H) /\ Quads(F) = Quads(H) ELSE F = H
Corners(m) == [f \in 1..Len(m.F) |-> [c \in 1..4 |-> m.V[m.F[f][c] + 1]]]
=============================================================================
