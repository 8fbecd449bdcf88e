-------------------------------- MODULE GaMC --------------------------------
(* Stage M for C24: draw a set of k candidates, take a best one.            *)
EXTENDS Ga, FiniteSetsExt
CONSTANTS N, K, MaxF
VARIABLES pop, by, winner, a, b, c, d
Members == {[lik |-> l, post |-> p] : l \in (0..MaxF) \cup {None}, p \in (0..MaxF) \cup {None}}
Init == /\ pop \in [1..N -> {m \in Members : m.lik = None => m.post = None}] /\ by \in {"MAP", "MLE"} /\ winner = 0
        /\ a \in [1..2 -> {0, 2, 4}] /\ b \in [1..2 -> {0, 2}] /\ c = <<>> /\ d = <<>>
Best(S) == {i \in S : \A j \in S : Fit(pop, by, j) <= Fit(pop, by, i)}
Draw == /\ winner = 0 /\ CanTour(pop, K)
        /\ \E S \in kSubset(K, Eligible(pop)) : \E w \in Best(S) : winner' = w
        /\ UNCHANGED <<pop, by, a, b, c, d>>
Cross == /\ c = <<>> /\ winner = 0
         /\ \E s \in [1..2 -> BOOLEAN] : /\ c' = [i \in 1..2 |-> IF s[i] THEN a[i] ELSE b[i]]
                                         /\ d' = [i \in 1..2 |-> IF s[i] THEN b[i] ELSE a[i]]
         /\ UNCHANGED <<pop, by, winner, a, b>>
Next == Draw \/ Cross
WinnerIsSound == winner # 0 => winner \in Winners(pop, by, K)
\* every admissible winner can be drawn, and the number of ways is the stated one
AllWinners == CanTour(pop, K) => \A w \in Winners(pop, by, K) : \E S \in kSubset(K, Eligible(pop)) : w \in Best(S)
Ways == (CanTour(pop, K) /\ Cardinality({Fit(pop, by, i) : i \in Eligible(pop)}) = Cardinality(Eligible(pop)))
        => \A i \in DOMAIN pop : Cardinality({S \in kSubset(K, Eligible(pop)) : Best(S) = {i}}) = Wins(pop, by, K, i)
Children == c # <<>> => Shuffled(a, b, c, d) /\ \A i \in 1..2 : c[i] + d[i] = a[i] + b[i]
=============================================================================
