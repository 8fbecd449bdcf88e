-------------------------------- MODULE Abc --------------------------------
(***************************************************************************)
(* Rejection ABC (C19).  Anchors: fit/abcom/alg.py, fit/base.py.           *)
(* A distance is <<"fin", n>>, <<"inf", 1>> or <<"nan", 0>>.               *)
(* Workers repeat: draw from the prior, simulate, measure.  In the test    *)
(* phase a run ends with its first finite distance, in the collecting      *)
(* phase with its first distance within the threshold.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Finite(d) == d[1] = "fin"
\* the p-quantile (p = <<n, k>>) of a sequence of numbers: position p * (len - 1) counted from zero,
\* interpolated.  In units of 1 / p[2].
Quantile(s, p) == LET o == SortSeq(s, <)
                      h == p[1] * (Len(o) - 1)
                      j == h \div p[2]
                      g == h % p[2] IN
    IF j + 1 >= Len(o) THEN o[Len(o)] * p[2] ELSE o[j + 1] * p[2] + (o[j + 2] - o[j + 1]) * g
\* eps is counted in 1 / k
Within(d, eps, k) == Finite(d) /\ d[2] * k <= eps
=============================================================================
