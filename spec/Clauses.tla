----------------------------- MODULE Clauses -----------------------------
(* A trace check evaluates to a sequence of named clauses, each "ok",       *)
(* "bad" or "na" (not applicable: its antecedent does not hold).            *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

Cl(name, cond)         == << <<name, IF cond THEN "ok" ELSE "bad">> >>
ClIf(name, guard, cond) == << <<name, IF ~guard THEN "na" ELSE IF cond THEN "ok" ELSE "bad">> >>
NoClause == <<>>
BadOf(cs)  == {cs[i][1] : i \in {j \in 1..Len(cs) : cs[j][2] = "bad"}}
OkOf(cs)   == {cs[i][1] : i \in {j \in 1..Len(cs) : cs[j][2] = "ok"}}
NaOf(cs)   == {cs[i][1] : i \in {j \in 1..Len(cs) : cs[j][2] = "na"}}

\* coverage: how many times each clause was decided (name -> count)
Bump(cov, names) == FoldLeft(LAMBDA c, n : IF n \in DOMAIN c THEN [c EXCEPT ![n] = @ + 1] ELSE c @@ (n :> 1),
                             cov, SetToSeq(names))
Has(r, f) == f \in DOMAIN r
Report(l, e, bad) == PrintT("BAD " \o ToJson([l |-> l, s |-> e.s, o |-> e.o, bad |-> SetToSeq(bad)]))
TraceFile == IOEnv.TRACE
=============================================================================
