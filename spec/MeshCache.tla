----------------------------- MODULE MeshCache -----------------------------
(***************************************************************************)
(* Design model of the memoised quantities of a mesh.  The mesh itself is  *)
(* reduced to aspects that operations touch; each cache depends on some    *)
(* aspects.  An operation must drop, or bring up to date, every cache that *)
(* depends on what it touches, whatever was queried before.  TLC explores  *)
(* every reachable presence of caches with every operation, checks that no *)
(* cache is ever stale, and emits each (history, operation) edge, which    *)
(* the harness replays on the real Mesh class.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Matrix,      \* "design": the contract;  "base": what the pinned commit did
          Emit         \* "edges" or "histories" or "none"

Caches == {"tq", "fp", "si", "cn"}
\* aspects: pos (coordinates), fac (which corners), ori (orientation), num (numbering)
Depends == [tq |-> {"fac", "num"}, fp |-> {"pos", "fac", "ori", "num"}, si |-> {"pos", "fac", "ori", "num"},
            cn |-> {"fac", "ori", "num"}]
Needs == [tq |-> {"tq"}, fp |-> {"tq", "fp"}, si |-> {"tq", "si"}, cn |-> {"cn"}]
Moves == {"translate", "translatex", "translatey", "translatez", "rotate", "rotatex", "rotatey", "rotatez", "rotmat"}
Scales == {"scale", "scalex", "scaley", "scalez"}
Ops == Moves \cup Scales \cup {"flip", "mirror", "symmetrize", "merge", "unused", "healtri", "degen", "healnormals",
        "healmesh", "triangulate", "setV", "setF", "copy"}
Touch(o) == CASE o \in Moves \cup Scales \cup {"setV"} -> {"pos"}
              [] o \in {"flip", "healnormals"} -> {"ori"}
              [] o = "mirror" -> {"pos", "ori"}
              [] o = "symmetrize" -> {"pos", "fac", "ori", "num"}
              [] o = "merge" -> {"pos", "fac", "num"}
              [] o = "unused" -> {"pos", "num"}
              [] o \in {"healtri", "degen"} -> {"fac"}
              [] o = "triangulate" -> {"fac"}
              [] o = "setF" -> {"fac", "ori"}
              [] o = "healmesh" -> {"pos", "fac", "ori", "num"}
              [] o = "copy" -> {}
\* caches brought up to date in place
Repairs(o) == IF o \in Moves THEN {"fp"} ELSE IF o = "flip" THEN {"fp"} ELSE IF o = "unused" THEN {"tq", "fp", "si"} ELSE {}
\* what an operation reads (hence computes) before it modifies anything
Reads(o) == IF o = "degen" THEN {"fp"} ELSE IF o = "healnormals" THEN {"cn", "tq"} ELSE IF o = "healmesh" THEN {"fp"} ELSE IF o = "triangulate" THEN {"tq"} ELSE {}
All == Caches
\* the drop matrix of the pinned commit, given the caches present
BaseDrops(o, p) ==
  CASE o \in Moves -> {"si"}
    [] o \in Scales \cup {"degen", "healtri"} -> IF "fp" \in p THEN {"fp", "si", "tq"} ELSE {}
    [] o = "flip" -> {"si"}
    [] o = "merge" -> {"cn"}
    [] o = "unused" -> {"cn"}
    [] o = "healnormals" -> IF "fp" \in p THEN {"fp", "si", "tq"} ELSE {}
    [] o = "healmesh" -> All
    [] o \in {"mirror", "symmetrize", "triangulate", "setV", "setF"} -> All
    [] o = "copy" -> {}
DesignDrops(o, p) == {c \in Caches : Depends[c] \cap Touch(o) # {}} \ Repairs(o)
Drops(o, p) == IF Matrix = "base" THEN BaseDrops(o, p) ELSE DesignDrops(o, p)

VARIABLES pres, stale, hist
vars == <<pres, stale, hist>>

Build(p, c) == p \cup Needs[c]
Query(c) == /\ c \notin pres
            /\ pres' = Build(pres, c)
            /\ stale' = stale \cup (IF Needs[c] \cap stale # {} THEN {c} ELSE {})
            /\ hist' = Append(hist, c)
Read(p, cs) == UNION {p} \cup UNION {Needs[c] : c \in cs}
Op(o) == LET p == Read(pres, Reads(o))
             gone == Drops(o, p)
             hit == {c \in p : Depends[c] \cap Touch(o) # {}} \ Repairs(o)
         IN /\ pres' = p \ gone
            /\ stale' = (stale \cup hit) \ gone
            /\ hist' = Append(hist, o)
            /\ IF Emit = "edges" THEN PrintT("SCN " \o ToJson(Append(hist, o))) ELSE TRUE
Init == pres = {} /\ stale = {} /\ hist = <<>>
Next == (\E c \in Caches : Query(c)) \/ (\E o \in Ops : Op(o))
Spec == Init /\ [][Next]_vars
NothingStale == stale = {}
Built == \A c \in pres : Needs[c] \subseteq pres \/ c = "fp" \/ c = "si"
View == <<pres, stale>>
\* simulation: a whole history
Depth == 11
LastIsOp == hist # <<>> /\ hist[Len(hist)] \in Ops
SimNext == \/ \E c \in Caches : Query(c)
           \/ (~LastIsOp \/ pres = Caches) /\ \E o \in Ops : Op(o)
EmitHistory == Emit = "histories" /\ Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
