------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* What data tables answer (C29).  Anchors: data/static.py (conditional    *)
(* probability tables, transition matrices), data/timeseries.py.           *)
(*                                                                         *)
(* A probability table is a record [ix, w]: ix the set of index names and  *)
(* w a function from keys (functions from ix to labels) to weights.        *)
(* A time series is a sequence of rows <<time in quarters, value>> in any  *)
(* order, no time twice.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

RECURSIVE SumW(_, _)
SumW(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumW(f, S \ {x})
Total(T) == SumW(T.w, DOMAIN T.w)
Usable(T) == Total(T) > 0
On(k, S) == [x \in DOMAIN k \cap S |-> k[x]]
Agrees(k, c) == \A x \in DOMAIN k \cap DOMAIN c : k[x] = c[x]
\* keep the rows which agree with c, without the columns of c
Condition(T, c) ==
  LET rest == T.ix \ DOMAIN c
      keep == {k \in DOMAIN T.w : Agrees(k, c)}
  IN [ix |-> rest, w |-> [k \in {On(q, rest) : q \in keep} |-> SumW(T.w, {q \in keep : On(q, rest) = k})]]
\* leave one column out: rows which become the same are added up
Marginalise(T, x) ==
  LET rest == T.ix \ {x}
  IN [ix |-> rest, w |-> [k \in {On(q, rest) : q \in DOMAIN T.w} |-> SumW(T.w, {q \in DOMAIN T.w : On(q, rest) = k})]]
Drawable(T) == {k \in DOMAIN T.w : T.w[k] > 0}

(* -------------------------- series over time -------------------------- *)
Times(rows) == {rows[i][1] : i \in DOMAIN rows}
At(rows, t) == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = t][2]
Gap(a, b) == IF a < b THEN b - a ELSE a - b
NearestTimes(rows, q) == {t \in Times(rows) : \A u \in Times(rows) : Gap(t, q) <= Gap(u, q)}
Nearest(rows, q) == {At(rows, t) : t \in NearestTimes(rows, q)}
\* linear between neighbours, as <<numerator, denominator>>; constant beyond the ends
Linear(rows, q) ==
  LET lo == {t \in Times(rows) : t <= q}
      up == {t \in Times(rows) : t >= q}
  IN IF lo = {} THEN <<At(rows, Min(Times(rows))), 1>>
     ELSE IF up = {} THEN <<At(rows, Max(Times(rows))), 1>>
     ELSE LET a == Max(lo)  b == Min(up)
          IN IF a = b THEN <<At(rows, a), 1>>
             ELSE <<At(rows, a) * (b - q) + At(rows, b) * (q - a), b - a>>
\* the answers a series may give: rationals
Answers(kind, rows, q) == IF kind = "linear" THEN {Linear(rows, q)} ELSE {<<x, 1>> : x \in Nearest(rows, q)}
=============================================================================
