----------------------------- MODULE TablesTrace -----------------------------
(* Validation of recorded use of data tables (C29).                         *)
EXTENDS Tables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tabs         \* the tables made so far in this history

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
S0 == 10000
Near(m, n, d, tol) == LET e == m * d - n * S0 IN e <= tol * d /\ -e <= tol * d

\* pairs to function
Fn(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = x][2]]
TableOf(r) == LET ks == [i \in DOMAIN r.rows |-> Fn(r.rows[i][1])]
              IN [ix |-> {r.ix[i] : i \in DOMAIN r.ix}, w |-> [k \in {ks[i] : i \in DOMAIN ks} |-> r.rows[CHOOSE i \in DOMAIN ks : ks[i] = k][2]]]

(* 6 standard deviations of a count out of n with probability w/t *)
Often(c, n, w, t) == LET e == c * t - n * w IN e * e <= 40 * n * w * (t - w) + t * t

\* o: what one table shows: probabilities of its rows and counts of its draws
Shows(o, T, line) ==
  LET t == Total(T)
      ps == [i \in DOMAIN o.probs |-> <<Fn(o.probs[i][1]), o.probs[i][2]>>]
      cs == [i \in DOMAIN o.cnt |-> <<Fn(o.cnt[i][1]), o.cnt[i][2]>>]
      K == {cs[i][1] : i \in DOMAIN cs}
      Cnt(k) == IF k \in K THEN cs[CHOOSE i \in DOMAIN cs : cs[i][1] = k][2] ELSE 0
  IN /\ Expect(o.ok, line, "C29.table-draw")
     /\ Expect(o.seen => /\ {ps[i][1] : i \in DOMAIN ps} = DOMAIN T.w /\ Len(ps) = Cardinality(DOMAIN T.w)
                         /\ \A i \in DOMAIN ps : ps[i][1] \in DOMAIN T.w => Near(ps[i][2], T.w[ps[i][1]], t, 2), line, "C29.table-rows")
     /\ IF o.ok THEN /\ Expect(K \subseteq Drawable(T), line, "C29.table-support")
                     /\ Expect(o.got = o.n, line, "C29.table-count")
                     /\ Expect(\A k \in Drawable(T) : Often(Cnt(k), o.n, T.w[k], t), line, "C29.table-frequency")
        ELSE TRUE

After(r) == CASE r.op = "new" -> <<TableOf(r)>>
              [] r.op = "condition" -> Append(tabs, Condition(tabs[r.from], Fn(r.given)))
              [] r.op = "marginalise" -> Append(tabs, Marginalise(tabs[r.from], r.index))
              [] OTHER -> tabs
TableStep(r, line) == IF r.op = "absent" THEN
  \* no row has this value: there is nothing to draw from
  /\ Expect(~r.ok, line, "C29.table-absent")
  /\ Expect(r.frame, line, "C29.frame-changed")
  /\ Assert(\A k \in DOMAIN tabs[1].w : \E i \in DOMAIN r.given : k[r.given[i][1]] # r.given[i][2], "the value is there")
  /\ tabs' = tabs
  ELSE
  /\ Expect(r.ok, line, "C29.table-refused")
  /\ Expect(r.frame, line, "C29.frame-changed")
  /\ tabs' = After(r)
  /\ IF r.ok THEN \A i \in DOMAIN r.obs : Shows(r.obs[i], tabs'[i], line) ELSE TRUE

Rows(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2]>>]
Answered(a, kind, rows, q) == \E y \in Answers(kind, rows, q) : Near(a, y[1], y[2], 2)
\* columns: name -> values, in the order of the times r.ts; asked: <<q, <<answers per column>>>>
Column(r, j) == [i \in DOMAIN r.ts |-> <<r.ts[i], r.xs[j][i]>>]
Series(r, line) ==
  /\ Expect(r.ok, line, "C29.series-refused")
  /\ IF r.ok THEN \A i \in DOMAIN r.asked : LET a == r.asked[i] IN
        /\ Expect(a.ok /\ Len(a.got) = Len(r.xs), line, "C29.series-answer")
        /\ IF a.ok THEN
             /\ Expect(\A j \in DOMAIN a.got : Answered(a.got[j], r.kind, Column(r, j), a.q), line, "C29.series-value")
             \* all columns come from one row
             /\ Expect(r.kind = "nearest" => \E t \in NearestTimes(Column(r, 1), a.q) : \A j \in DOMAIN a.got : Near(a.got[j], At(Column(r, j), t), 1, 2), line, "C29.series-row")
           ELSE TRUE
     ELSE TRUE

\* a table of probabilities over time: r.ws[j][i] the weight of label j at time i
PTable(r, line) ==
  /\ Expect(r.ok, line, "C29.series-refused")
  /\ IF r.ok THEN \A i \in DOMAIN r.asked :
        LET a == r.asked[i]
            rows == [k \in DOMAIN r.ts |-> <<r.ts[k], k>>]
        IN /\ Expect(a.ok /\ a.got = a.n, line, "C29.ptable-answer")
           /\ IF a.ok THEN
                Expect(\E k \in Nearest(rows, a.q) :
                        LET t == SumW([j \in DOMAIN r.ws |-> r.ws[j][k]], DOMAIN r.ws) IN
                        \A j \in DOMAIN a.cnt : IF r.ws[j][k] = 0 THEN a.cnt[j] = 0 ELSE Often(a.cnt[j], a.n, r.ws[j][k], t), line, "C29.ptable-frequency")
              ELSE TRUE
     ELSE TRUE

\* rates over time and age: logarithms, the coefficients in quarters
Lee(r, line) ==
  /\ Expect(r.ok, line, "C29.series-refused")
  /\ IF r.ok THEN \A i \in DOMAIN r.asked :
        LET a == r.asked[i]
            rows == [k \in DOMAIN r.ts |-> <<r.ts[k], r.kappa[k]>>]
        IN /\ Expect(a.ok /\ Len(a.got) = Len(r.alpha), line, "C29.lee-answer")
           /\ IF a.ok THEN
                Expect(\E y \in Answers(r.kind, rows, a.q) : \A g \in DOMAIN a.got :
                    Near(a.got[g], 4 * r.alpha[g] * y[2] + y[1] * r.beta[g], 16 * y[2], 3), line, "C29.lee-rate")
              ELSE TRUE
     ELSE TRUE

Moves(r, line) ==
  /\ Expect(r.ok, line, "C29.moves-refused")
  /\ IF r.ok THEN \A i \in DOMAIN r.calls : LET a == r.calls[i] IN
       IF a.known THEN
         /\ Expect(a.ok /\ a.got = a.n, line, "C29.moves-count")
         /\ IF a.ok THEN \A k \in DOMAIN a.cnt :       \* one entry per current state: <<state, number asked, counts>>
              LET s == a.cnt[k][1]  n == a.cnt[k][2]  t == SumW(r.w[s], DOMAIN r.w[s]) IN
              /\ Expect(SumW(a.cnt[k][3], DOMAIN a.cnt[k][3]) = n, line, "C29.moves-states")
              /\ Expect(\A j \in DOMAIN a.cnt[k][3] : r.w[s][j] = 0 => a.cnt[k][3][j] = 0, line, "C29.moves-support")
              /\ Expect(\A j \in DOMAIN a.cnt[k][3] : Often(a.cnt[k][3][j], n, r.w[s][j], t), line, "C29.moves-frequency")
            ELSE TRUE
       ELSE Expect(~a.ok, line, "C29.moves-unknown")
     ELSE TRUE

Judge(r, line) ==
  CASE r.k = "table" -> TableStep(r, line)
    [] r.k = "series" -> Series(r, line) /\ UNCHANGED tabs
    [] r.k = "ptable" -> PTable(r, line) /\ UNCHANGED tabs
    [] r.k = "lee" -> Lee(r, line) /\ UNCHANGED tabs
    [] r.k = "moves" -> Moves(r, line) /\ UNCHANGED tabs

Init == l = 1 /\ tabs = <<>>
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
