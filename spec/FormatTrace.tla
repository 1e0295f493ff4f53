---------------------------- MODULE FormatTrace ----------------------------
(* Trace validation of the readers and writers of mesh files. *)
EXTENDS FormatCl
Trace == JsonDeserialize(TraceFile)
VARIABLES l, cov
vars == <<l, cov>>
EventCl(e) == CASE e.o = "start" -> NoClause
                [] e.o = "load" -> LoadCl(e)
                [] e.o = "rt" -> RtCl(e)
                [] e.o = "big" -> BigCl(e)
                [] e.o = "refuse" -> RefuseCl(e)
                [] OTHER -> Cl("unknown-op", FALSE)
Init == l = 1 /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cs == TLCEval(EventCl(e))
               bad == BadOf(cs)
           IN /\ IF bad # {} THEN Report(l, e, bad) ELSE TRUE
              /\ cov' = Bump(cov, OkOf(cs) \cup bad)
              /\ l' = l + 1
              /\ IF l = Len(Trace) THEN PrintT("COV " \o ToJson(cov')) ELSE TRUE
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
