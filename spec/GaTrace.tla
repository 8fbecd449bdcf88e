------------------------------- MODULE GaTrace -------------------------------
(***************************************************************************)
(* Validation of recorded genetic operators (C24).  Averages are recorded  *)
(* doubled parents and children, proposals by rank between the bounds.     *)
(***************************************************************************)
EXTENDS Ga, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
PopOf(s) == [i \in DOMAIN s |-> [lik |-> s[i].lik, post |-> s[i].post]]
Count(s, i) == Cardinality({k \in DOMAIN s : s[k] = i})
RECURSIVE SumOf(_, _)
SumOf(w, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN w[i] + SumOf(w, S \ {i})
\* about six standard deviations around the share w[i]/T of N draws
FairShare(s, w, T) == LET N == Len(s) IN \A i \in DOMAIN w :
    LET e == Count(s, i) * T - N * w[i] IN
    e < 46000 /\ e > -46000 /\ e * e <= 40 * N * w[i] * (T - w[i]) + T * T

Cross(r, line) ==
  /\ Expect(r.ok, line, "C24.crossover-refused")
  /\ Expect(r.same, line, "C24.parents-changed")
  /\ IF r.ok
     THEN /\ Expect(r.keys, line, "C24.crossover-domain")
          /\ IF r.kind = "average" THEN Expect(Averaged(r.a, r.b, r.c, r.d), line, "C24.average")
             ELSE Expect(Shuffled(r.a, r.b, r.c, r.d), line, "C24.shuffle")
     ELSE TRUE
Mutate(r, line) ==
  /\ Expect(r.ok, line, "C24.mutation-refused")
  /\ Expect(r.same, line, "C24.population-changed")
  /\ IF r.ok
     THEN /\ Expect(r.keys, line, "C24.mutation-domain")
          /\ Expect(\A i \in DOMAIN r.v : r.lo[i] < r.v[i] /\ r.v[i] < r.up[i], line, "C24.outside-bounds")
     ELSE TRUE
Select(r, line) ==
  LET pop == PopOf(r.pop)
      can == IF r.kind = "tour" THEN CanTour(pop, r.k) ELSE CanImportance(pop) IN
  IF ~can THEN TRUE                        \* too few members to choose from
  ELSE
  /\ Expect(r.ok, line, "C24.selection-refused")
  /\ Expect(r.same, line, "C24.population-changed")
  /\ IF r.ok
     THEN /\ Expect(Len(r.sel) = r.rounds * Len(r.pop), line, "C24.size")
          /\ Expect(\A j \in DOMAIN r.sel : r.sel[j] \in Eligible(pop), line, "C24.not-eligible")
          /\ Expect(r.clones, line, "C24.clones")
          /\ IF r.kind = "tour"
             THEN /\ Expect(\A j \in DOMAIN r.sel : r.sel[j] \in Eligible(pop) => r.sel[j] \in Winners(pop, r.by, r.k), line, "C24.not-best")
                  /\ Expect(r.distinct /\ Len(r.sel) >= 500 => FairShare(r.sel, [i \in DOMAIN pop |-> Wins(pop, r.by, r.k, i)], Tours(pop, r.k)), line, "C24.tournament")
             ELSE /\ Expect(\A j \in DOMAIN r.sel : r.w[r.sel[j]] > 0, line, "C24.zero-weight")
                  /\ Expect(Len(r.sel) >= 500 => FairShare(r.sel, r.w, SumOf(r.w, DOMAIN r.w)), line, "C24.importance")
     ELSE TRUE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN CASE r.op = "cross" -> Cross(r, l) [] r.op = "mut" -> Mutate(r, l) [] OTHER -> Select(r, l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
