------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Resampling a weighted population (C25).  Anchors: util.resample.        *)
(* A weight is <<"w", n>> (n counts of a common unit), or <<"bad", 0>> for *)
(* an infinite or undefined one.  Members are their positions 1..n.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eligible(w) == {i \in DOMAIN w : w[i][1] = "w" /\ w[i][2] > 0}
Share(w, i) == IF i \in Eligible(w) THEN w[i][2] ELSE 0
RECURSIVE TotalOf(_, _)
TotalOf(w, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN Share(w, i) + TotalOf(w, S \ {i})
Total(w) == TotalOf(w, DOMAIN w)
Size(w, asked) == IF asked = 0 THEN Len(w) ELSE asked
CanResample(w) == Eligible(w) # {}
Count(sel, i) == Cardinality({k \in DOMAIN sel : sel[k] = i})
Right(w, asked, sel) == Len(sel) = Size(w, asked) /\ \A k \in DOMAIN sel : sel[k] \in Eligible(w)
\* number of draws of i within about six standard deviations of its share
Fair(w, sel) == LET N == Len(sel)  T == Total(w) IN
    \A i \in DOMAIN w : LET e == Count(sel, i) * T - N * Share(w, i) IN
        e < 46000 /\ e > -46000 /\ e * e <= 40 * N * Share(w, i) * (T - Share(w, i)) + T * T
=============================================================================
