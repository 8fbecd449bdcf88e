------------------------------ MODULE DistTrace ------------------------------
(* Validation of recorded distributions (C26).                              *)
EXTENDS Dist, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
B(b) == IF b[1] = "fin" THEN Fin(Norm(<<b[2], b[3]>>)) ELSE <<b[1], b[2], b[3]>>
QOf(s) == <<s[1], s[2]>>
POf(s) == [i \in DOMAIN s |-> Norm(QOf(s[i]))]
S0 == 10000

Numbers(r, p, line) ==
  /\ Expect(Near(r.mean, S0, Mean(r.f, p), 2), line, "C26.mean")
  /\ Expect(Near(r.var, S0, Var(r.f, p), 2), line, "C26.spread")
  /\ Expect(B(r.lo) = B(Lower(r.f, p)) /\ B(r.up) = B(Upper(r.f, p)), line, "C26.bounds")
  /\ Expect(r.f = "k" \/ r.tp = TypeOf(r.f), line, "C26.type")
  \* draws: numbers of values, values outside the bounds, values that are not whole, average
  /\ \A i \in DOMAIN r.draws : LET d == r.draws[i] IN
       /\ Expect(d.ok /\ d.got = d.n /\ d.flat = (d.n = 1), line, "C26.draws")
       /\ Expect(d.below = 0 /\ d.above = 0, line, "C26.draw-outside")
       /\ Expect(Discrete(r.f) => d.frac = 0, line, "C26.draw-type")
  /\ Expect(r.avg # <<>> => Near(r.avg[1], S0, Mean(r.f, p), r.avg[2]), line, "C26.average")
  \* draws do not tell of one another: what their order shows (in thousandths), values that come back
  /\ Expect(r.lag <= 150 /\ r.same = 0, line, "C26.draws-apart")
  /\ \A i \in DOMAIN r.at : LET a == r.at[i] x == Norm(QOf(a.x)) IN
       /\ Expect(OutSide(r.f, p, x) => a.d = "-inf", line, "C26.outside")
       /\ Expect(InSupport(r.f, p, x) => a.d = "fin", line, "C26.inside")
  /\ Expect(r.mass # <<>> => Near(r.mass[1], S0, One, r.mass[2]), line, "C26.mass")

\* what a distribution says it was made from; calling it draws once
Said(r, p, line) ==
  /\ Expect(Len(r.args) = Len(p) /\ \A i \in DOMAIN p : r.args[i][2] > 0 /\ Norm(QOf(r.args[i])) = p[i], line, "C26.parameters")
  /\ Expect(r.shown, line, "C26.shown")
  /\ Expect(r.bare, line, "C26.unnamed-shown")
  /\ Expect(r.once, line, "C26.call")

RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN One ELSE Mul(x, Power(x, k - 1))
RECURSIVE Prod(_, _)
Prod(s, i) == IF i = 0 THEN One ELSE Mul(s[i], Prod(s, i - 1))

Category(r, p, line) ==
  LET tot == SumQ([i \in DOMAIN p |-> p[i]], DOMAIN p) IN
  /\ Expect(r.tp = "Category", line, "C26.type")
  \* several observations at once, given as counts
  /\ Expect(Near(r.many[Len(p) + 1], S0, Prod([i \in DOMAIN p |-> Power(Div(p[i], tot), r.many[i])], Len(p)), 2), line, "C26.counts")
  /\ Expect(Len(r.probs) = Len(p) /\ \A i \in DOMAIN p : Near(r.probs[i], S0, Div(p[i], tot), 2), line, "C26.probabilities")
  /\ Expect(Near(r.mass[1], S0, One, r.mass[2]), line, "C26.mass")
  /\ Expect(\A i \in DOMAIN r.at : r.at[i].d = "-inf", line, "C26.outside")
  /\ \A i \in DOMAIN r.draws : LET d == r.draws[i] IN
       /\ Expect(d.ok /\ d.got = d.n /\ d.flat = (d.n = 1), line, "C26.draws")
       /\ Expect(d.below = 0, line, "C26.draw-outside")
       \* a category without probability is never drawn, and no other is drawn far too often or too rarely
       /\ Expect(\A j \in DOMAIN d.cnt : LET q == Div(p[j], tot) IN
              /\ q[1] = 0 => d.cnt[j] = 0
              /\ d.n >= 100 => LET e == d.cnt[j] * q[2] - d.n * q[1]
                               IN e * e <= 40 * d.n * q[1] * (q[2] - q[1]) + q[2] * q[2], line, "C26.frequency")

Judge(r, line) ==
  LET p == POf(r.p) IN
  IF ~Valid(r.f, p) THEN Expect(~r.ok, line, "C26.not-refused")
  ELSE /\ Expect(r.ok, line, "C26.refused")
       /\ r.ok => Said(r, p, line)
       /\ IF r.ok THEN IF r.f = "cat" THEN Category(r, p, line) ELSE Numbers(r, p, line) ELSE TRUE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
