--------------------------------- MODULE Ga ---------------------------------
(***************************************************************************)
(* The operators of the genetic algorithm (C24).                           *)
(* Anchors: fit/ga/cross.py, fit/ga/mutate.py, fit/ga/select.py.           *)
(* A member is [lik, post]: whole numbers, None where not finite.          *)
(* Values of parameters are whole numbers (counts of a unit).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1000000
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

\* crossover of parents a and b, sequences over the domain, to children c and d
Averaged(a, b, c, d) == /\ DOMAIN c = DOMAIN a /\ DOMAIN d = DOMAIN a
                        /\ \A i \in DOMAIN a : 2 * c[i] = a[i] + b[i] /\ d[i] = c[i]
Shuffled(a, b, c, d) == /\ DOMAIN c = DOMAIN a /\ DOMAIN d = DOMAIN a
                        /\ \A i \in DOMAIN a : (c[i] = a[i] /\ d[i] = b[i]) \/ (c[i] = b[i] /\ d[i] = a[i])
\* selection
Eligible(pop) == {i \in DOMAIN pop : pop[i].lik # None}
Fit(pop, by, i) == IF by = "MAP" THEN pop[i].post ELSE pop[i].lik
NoBetter(pop, by, i) == {j \in Eligible(pop) : Fit(pop, by, j) <= Fit(pop, by, i)}
CanTour(pop, k) == Cardinality(Eligible(pop)) > k
CanImportance(pop) == Cardinality(Eligible(pop)) > 5
Winners(pop, by, k) == {i \in Eligible(pop) : Cardinality(NoBetter(pop, by, i)) >= k}
\* number of sets of k candidates that i wins, where all fitnesses differ
Wins(pop, by, k, i) == IF i \in Eligible(pop) THEN Choose(Cardinality(NoBetter(pop, by, i)) - 1, k - 1) ELSE 0
Tours(pop, k) == Choose(Cardinality(Eligible(pop)), k)
=============================================================================
