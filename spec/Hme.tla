--------------------------------- MODULE Hme ---------------------------------
(***************************************************************************)
(* History matching with emulators (C21).  Anchors: fit/hme/alg.py.        *)
(* Outputs are counted in quarters, variances in quarters; the driver only *)
(* uses total variances whose square root is 1, 2 or 4, so implausibility  *)
(* is an exact number of 1/128.  Positions in the unit cube are ranks.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(n) == IF n < 0 THEN -n ELSE n
Root(v) == CHOOSE s \in {1, 2, 4} : 4 * s * s = v
\* e: data, y: emulated mean, v: total variance, one per target
Implausibility(e, y, v) == Max({(32 * Abs(e[k] - y[k])) \div Root(v[k]) : k \in DOMAIN e})
\* quantile of s at a = <<a1, a2>>, in units of 1/a2 of those of s
Quantile(s, a) == LET o == SortSeq(s, <)
                      h == a[1] * (Len(o) - 1)
                      j == h \div a[2]
                      g == h % a[2] IN
    IF j + 1 >= Len(o) THEN o[Len(o)] * a[2] ELSE o[j + 1] * a[2] + (o[j + 2] - o[j + 1]) * g
CutOff(imps, limit, a) == LET q == Quantile(imps, a) IN IF q > limit * a[2] THEN q ELSE limit * a[2]
Kept(imps, co, a) == {i \in DOMAIN imps : imps[i] * a[2] <= co}
Lowest(xs, S, j) == Min({xs[i][j] : i \in S})
Highest(xs, S, j) == Max({xs[i][j] : i \in S})
Inside(x, lo, up) == \A j \in DOMAIN x : lo[j] <= x[j] /\ x[j] <= up[j]
=============================================================================
