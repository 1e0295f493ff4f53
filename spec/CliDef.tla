------------------------------- MODULE CliDef -------------------------------
(***************************************************************************)
(* The command line: what a line of options asks for.  An option is        *)
(* [k |-> its name, a |-> its arguments], an argument [w |-> the word,     *)
(* num |-> is it a number, x |-> its value].                               *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, Naturals
\* the stages of the pipeline, in the documented order; within a stage, in the order typed
Stages == <<"cc", "md", "mirror", "sym", "hm", "hn", "t", "tx", "ty", "tz", "r", "rx", "ry", "rz", "s", "sx", "sy", "sz", "fn", "tq", "c">>
Transforms == Range(Stages)
Repeatable == {"sym", "c", "p"}
Reads == {"i", "quality", "pi", "si", "q", "list", "rho", "thickness", "pn", "p", "wd", "g", "zg", "lpp", "ap"}
StageOf(k) == CHOOSE n \in 1..Len(Stages) : Stages[n] = k
Keys == {"Oxy", "Oxz", "Oyz", "/Oxy", "/Oxz", "/Oyz"}
KeyNormal(w) ==
  CASE w = "Oxy" -> <<Zero, Zero, One>> [] w = "Oxz" -> <<Zero, One, Zero>> [] w = "Oyz" -> <<One, Zero, Zero>>
    [] w = "/Oxy" -> <<Zero, Zero, FNeg(One)>> [] w = "/Oxz" -> <<Zero, FNeg(One), Zero>> [] OTHER -> <<FNeg(One), Zero, Zero>>
Ids == <<"0", "1", "2", "3", "4", "5">>
IdOf(w) == IF w \in Range(Ids) THEN (CHOOSE n \in 1..Len(Ids) : Ids[n] = w) ELSE 0     \* 1-based, 0: not an id
Has1(t, k) == \E i \in 1..Len(t) : t[i].k = k
LastOf(t, k) == CHOOSE i \in 1..Len(t) : t[i].k = k /\ \A j \in 1..Len(t) : t[j].k = k => j <= i
Planes(t) == SelectSeq(t, LAMBDA o : o.k = "p")
\* the operations the line asks for, as indices of its options, in the order they are to be performed
Effective(t, i) == /\ t[i].k \in Transforms
                   /\ t[i].k \in Repeatable \/ i = LastOf(t, t[i].k)          \* an option typed again replaces the former
                   /\ t[i].k = "hn" => ~Has1(t, "hm")                        \* healing the mesh heals its normals
Pipeline(t) == LET es == {i \in 1..Len(t) : Effective(t, i)}
                   before(i, j) == StageOf(t[i].k) < StageOf(t[j].k) \/ (t[i].k = t[j].k /\ i < j)
               IN [n \in 1..Cardinality(es) |-> CHOOSE i \in es : Cardinality({j \in es : before(j, i)}) = n - 1]
\* a plane: 4 numbers, a key, the id of a plane defined on the line, or nothing for the default one
Default(k) == IF k = "sym" THEN "Oxz" ELSE "Oxy"
Nums(a) == \A i \in 1..Len(a) : a[i].num
FourOK(a) == Len(a) = 4 /\ Nums(a) /\ ~(\A d \in 1..3 : a[d].x = Zero)
PlaneOK(t, o) == LET a == o.a n == Len(Planes(t)) IN
  CASE Len(a) = 0 -> o.k # "p"
    [] Len(a) = 1 -> a[1].w \in Keys \/ (o.k # "p" /\ IdOf(a[1].w) \in 1..n)
    [] OTHER -> FourOK(a)
PlaneOf4(a) == LET n == <<a[1].x, a[2].x, a[3].x>> IN [n |-> Unit(n), c |-> a[4].x]
PlaneOfKey(w) == [n |-> KeyNormal(w), c |-> Zero]
PlaneDef(t, o) == LET a == o.a IN
  CASE Len(a) = 0 -> PlaneOfKey(Default(o.k))
    [] Len(a) = 4 -> PlaneOf4(a)
    [] a[1].w \in Keys -> PlaneOfKey(a[1].w)
    [] OTHER -> LET p == Planes(t)[IdOf(a[1].w)].a IN IF Len(p) = 4 THEN PlaneOf4(p) ELSE PlaneOfKey(p[1].w)
OneNum == {"tx", "ty", "tz", "rx", "ry", "rz", "s", "sx", "sy", "sz", "thickness", "wd", "g", "zg", "mdisp", "lpp"}
ThreeNum == {"t", "r", "cog"}
Flags == {"hm", "hn", "fn", "tq", "i", "quality", "pi", "si", "q", "list", "hs", "ap"}
OneWord == {"cc", "o", "ifmt", "ofmt", "pn", "report"}
Mediums == {"CONCRETE", "REINFORCED_CONCRETE", "FRESH_WATER", "SALT_WATER", "SAND", "STEEL", "ALUMINUM", "LEAD", "TITANIUM", "POLYSTYRENE", "GASOLINE",
            "DIESEL_FUEL", "ETHANOL", "AIR_20DEGC", "BUTANE", "PROPANE", "HYDROGEN_-252DEGC", "NITROGEN_-195DEGC"}
Density(w) ==
  CASE w = "CONCRETE" -> FInt(2300) [] w = "REINFORCED_CONCRETE" -> FInt(2400) [] w = "FRESH_WATER" -> FInt(1000) [] w = "SALT_WATER" -> FInt(1025)
    [] w = "SAND" -> FInt(1600) [] w = "STEEL" -> FInt(7850) [] w = "ALUMINUM" -> FInt(2700) [] w = "LEAD" -> FInt(11350) [] w = "TITANIUM" -> FInt(4500)
    [] w = "POLYSTYRENE" -> FInt(1050) [] w = "GASOLINE" -> FInt(750) [] w = "DIESEL_FUEL" -> FInt(850) [] w = "ETHANOL" -> FInt(789)
    [] w = "AIR_20DEGC" -> FDivI(FInt(1204), 1000) [] w = "BUTANE" -> FDivI(FInt(27), 10) [] w = "PROPANE" -> FDivI(FInt(201), 100)
    [] w = "HYDROGEN_-252DEGC" -> FInt(70) [] OTHER -> FInt(810)
OptOK(t, o) ==
  CASE o.k \in OneNum -> Len(o.a) = 1 /\ Nums(o.a)
    [] o.k \in ThreeNum -> Len(o.a) = 3 /\ Nums(o.a)
    [] o.k \in Flags -> Len(o.a) = 0
    [] o.k \in OneWord -> Len(o.a) = 1
    [] o.k = "rho" -> Len(o.a) = 1 /\ (Nums(o.a) \/ o.a[1].w \in Mediums)
    [] o.k = "md" -> Len(o.a) \in 0..1 /\ Nums(o.a)
    [] o.k \in {"mirror", "sym", "c", "p"} -> PlaneOK(t, o)
    [] OTHER -> FALSE
\* equilibria need the height of the centre of gravity
HsOK(t) == Has1(t, "hs") => (Has1(t, "zg") \/ Has1(t, "cog"))
\* an option that cannot be used, replaced by a later one of its kind: nothing is demanded
Unclear(t) == \E i \in 1..Len(t) : ~OptOK(t, t[i]) /\ \E j \in 1..Len(t) : j > i /\ t[j].k = t[i].k /\ t[i].k \notin Repeatable
Usable(t) == (\A i \in 1..Len(t) : OptOK(t, t[i])) /\ HsOK(t)
=============================================================================
