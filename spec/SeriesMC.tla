------------------------------ MODULE SeriesMC ------------------------------
(* Stage M for C29 (series over time).                                      *)
EXTENDS Tables
CONSTANTS MaxLen, MaxTime, Values
VARIABLES rows, q
Perm(s) == \A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1]
Init == /\ \E n \in 1..MaxLen : rows \in {s \in [1..n -> (0..MaxTime) \X Values] : Perm(s)}
        /\ q \in -1..(MaxTime + 1)
Next == UNCHANGED <<rows, q>>
Swap(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Set(s) == {s[i][2] : i \in DOMAIN s}
Hits == q \in Times(rows) => Nearest(rows, q) = {At(rows, q)} /\ Linear(rows, q) = <<At(rows, q), 1>>
AnyOrder == \A kind \in {"nearest", "linear"} : Answers(kind, rows, q) = Answers(kind, Swap(rows), q)
Ends == /\ q < Min(Times(rows)) => Answers("nearest", rows, q) = Answers("linear", rows, q) /\ Nearest(rows, q) = {At(rows, Min(Times(rows)))}
        /\ q > Max(Times(rows)) => Answers("nearest", rows, q) = Answers("linear", rows, q) /\ Nearest(rows, q) = {At(rows, Max(Times(rows)))}
Between == LET y == Linear(rows, q) IN y[2] > 0 /\ Min(Set(rows)) * y[2] <= y[1] /\ y[1] <= Max(Set(rows)) * y[2]
TieAtMiddle == Cardinality(NearestTimes(rows, q)) \in {1, 2}
=============================================================================
