--------------------------------- MODULE Smc ---------------------------------
(***************************************************************************)
(* Sequential ABC (C20).  Anchors: fit/abc_smc/alg.py.                     *)
(* Distances are whole numbers, thresholds are counted in 1/k.  Weights    *)
(* are equal over the live particles, the positions Live, and zero for the *)
(* others: they start equal, and are set to zero or made equal again.      *)
(* alpha = <<a1, a2>>, the resampling limit is thr = <<t1, t2>> of n.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Inf == 1000000000
\* quantile of d at the fraction f = <<fn, fd>>, in units of 1 / (fd)
QuantileAt(d, f) == LET o == SortSeq(d, <)
                        h == f[1] * (Len(o) - 1)
                        j == h \div f[2]
                        g == h % f[2] IN
    IF j + 1 >= Len(o) THEN o[Len(o)] * f[2] ELSE o[j + 1] * f[2] + (o[j + 2] - o[j + 1]) * g
\* thresholds of a run with n particles are all multiples of 1 / (n * a2)
Unit(n, alpha) == n * alpha[2]
Share(d, eps, k) == Cardinality({i \in DOMAIN d : eps = Inf \/ d[i] * k <= eps})
Proposed(d, eps, alpha) == QuantileAt(d, <<alpha[1] * Share(d, eps, Unit(Len(d), alpha)), Unit(Len(d), alpha)>>)
NextEps(d, eps, alpha) == LET e == Proposed(d, eps, alpha) IN IF e >= eps THEN eps ELSE e
Stays(d, eps, alpha) == Proposed(d, eps, alpha) >= eps
Survivors(live, d, eps1, k) == {i \in live : d[i] * k <= eps1}
\* effective size |live| below thr * n
MustResample(live, n, thr) == Cardinality(live) * thr[2] < n * thr[1]
CanGoOn(live) == Cardinality(live) > 2
Stop(round, stay, moved, n, set) == \/ round >= set.max_round
                                    \/ round >= 3 /\ stay >= set.max_stay
                                    \/ moved * set.min_acc[2] < n * set.min_acc[1]
=============================================================================
