-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* Design model of the command line.  A user types options one after the   *)
(* other, in any order; the command then goes through its stages, each one *)
(* performing the options that belong to it.  Whatever was typed, the run  *)
(* performs each requested operation once, with the value it was given, in *)
(* the documented order, and a line it cannot use is refused before        *)
(* anything is written.                                                    *)
(***************************************************************************)
EXTENDS CliDef, Json
CONSTANTS MaxLen, Kinds
VARIABLES typed, phase, stage, log, out
vars == <<typed, phase, stage, log, out>>
N(i) == [w |-> "n", num |-> TRUE, x |-> FInt(i)]
W(s) == [w |-> s, num |-> FALSE, x |-> Zero]
Key == W("/Oxz")
Id(n) == [w |-> Ids[n], num |-> TRUE, x |-> FInt(n - 1)]
Four == <<N(1), N(2), N(3), N(1)>>
\* what may be typed; v tells a second value of the same option from the first
Forms(k, v) ==
  CASE k \in OneNum -> {<<N(v)>>}
    [] k \in ThreeNum -> {<<N(v), N(1), N(2)>>}
    [] k \in Flags -> {<<>>}
    [] k = "md" -> {<<>>, <<N(v)>>}
    [] k = "cc" -> {<<W("other")>>}
    [] k = "p" -> {<<W("Oyz")>>, Four}
    [] OTHER -> {<<>>, <<Key>>, <<Id(1)>>, <<Id(2)>>, Four}
Init == typed = <<>> /\ phase = "typing" /\ stage = 1 /\ log = <<>> /\ out = "none"
Type == /\ phase = "typing" /\ Len(typed) < MaxLen
        /\ \E k \in Kinds : \E a \in Forms(k, 1 + Cardinality({i \in 1..Len(typed) : typed[i].k = k})) :
              typed' = Append(typed, [k |-> k, a |-> a])
        /\ UNCHANGED <<phase, stage, log, out>>
Enter == /\ phase = "typing"
         /\ phase' = IF Usable(typed) THEN "running" ELSE "refused"
         /\ UNCHANGED <<typed, stage, log, out>>
\* the implementation's way: stage by stage
Mine(k) == SelectSeq([i \in 1..Len(typed) |-> i], LAMBDA i : typed[i].k = k)
Do == LET k == Stages[stage] m == Mine(k) IN
      IF m = <<>> \/ (k = "hn" /\ Mine("hm") # <<>>) THEN <<>> ELSE IF k \in Repeatable THEN m ELSE <<m[Len(m)]>>
Stage == /\ phase = "running" /\ stage <= Len(Stages)
         /\ log' = log \o Do
         /\ stage' = stage + 1
         /\ UNCHANGED <<typed, phase, out>>
Write == /\ phase = "running" /\ stage > Len(Stages)
         /\ phase' = "done" /\ out' = "written"
         /\ UNCHANGED <<typed, stage, log>>
Next == Type \/ Enter \/ Stage \/ Write
\* what was asked, as operations with their values
Ops(t) == [i \in 1..Len(Pipeline(t)) |-> t[Pipeline(t)[i]]]
PlaneOps(t) == [i \in 1..Len(Pipeline(t)) |-> LET o == t[Pipeline(t)[i]] IN IF o.k \in {"mirror", "sym", "c"} THEN PlaneDef(t, o) ELSE [n |-> VZero, c |-> Zero]]
Done == phase = "done"
Performed == Done => log = Pipeline(typed)
EachOnce == Done => /\ Cardinality(Range(log)) = Len(log)
                    /\ \A i \in 1..Len(typed) : (i \in Range(log)) = Effective(typed, i)
Before(a, b) == \A i, j \in 1..Len(log) : (typed[log[i]].k \in a /\ typed[log[j]].k \in b) => i < j
Documented == Done => /\ Before({"t", "tx", "ty", "tz"}, {"r", "rx", "ry", "rz"})
                      /\ Before({"r", "rx", "ry", "rz"}, {"s", "sx", "sy", "sz"})
                      /\ Before({"md"}, {"hn", "hm"})
                      /\ Before({"sym", "mirror"}, {"r", "rx", "ry", "rz"})
                      /\ Before({"sym", "hn", "hm"}, {"c"})
\* two options typed in the other order ask for the same, unless both are of one repeatable (or repeated) kind
Swap(i) == [typed EXCEPT ![i] = typed[i + 1], ![i + 1] = typed[i]]
OrderFree == phase = "typing" => \A i \in 1..Len(typed) - 1 : typed[i].k # typed[i + 1].k =>
                 /\ Usable(Swap(i)) = Usable(typed)
                 /\ Ops(Swap(i)) = Ops(typed)
                 /\ Usable(typed) => PlaneOps(Swap(i)) = PlaneOps(typed)
NothingForced == phase = "refused" => out = "none" /\ log = <<>>
Entered == phase = "refused" \/ (phase = "running" /\ stage = 1)
Emit == Entered => PrintT("SCN " \o ToJson([typed |-> [i \in 1..Len(typed) |->
            [k |-> typed[i].k, form |-> [j \in 1..Len(typed[i].a) |-> IF typed[i].a[j].w = "n" THEN "num" ELSE typed[i].a[j].w]]]]))
=============================================================================
