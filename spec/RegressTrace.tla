---------------------------- MODULE RegressTrace ----------------------------
(* Validation of recorded regressions and hazards (C30).                    *)
EXTENDS Regress, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
S0 == 10000
S1 == 1000
R(s) == Norm(<<s[1], s[2]>>)
Regs(s) == TLCEval([u \in DOMAIN s |-> [tp |-> s[u].tp, cs |-> [v \in DOMAIN s[u].cs |-> R(s[u].cs[v])]]])
Vals(s) == TLCEval([u \in DOMAIN s |-> R(s[u])])
Base(s) == [tp |-> s.tp, a |-> R(s.a), k |-> R(s.k), pts |-> [i \in DOMAIN s.pts |-> <<R(s.pts[i][1]), R(s.pts[i][2])>>]]
\* within a thousandth, relative to numbers of size one and more
Close(m, q) == LET e == m * q[2] - q[1] * S1 IN LET t == 5 * q[2] + (IF q[1] < 0 THEN -q[1] ELSE q[1]) * 3 IN e <= t /\ -e <= t
Square(d) == d * d
\* an average in 1/S0 of n = 900 values within 0..1 whose expectation is e/S0: six standard deviations
Share900(m, e) == LET d == m - e IN (d <= 1050 /\ -d <= 1050) /\ 900 * Square(d) <= 36 * e * (S0 - e) + 90000

\* expectation, read back on the scale of the linear predictor
Glm(r, line) ==
  LET lp == Add(R(r.intercept), Predictor(Regs(r.regs), Vals(r.vals))) IN
  /\ Expect(r.ok, line, "C30.refused")
  /\ Expect(r.doc, line, "C30.document-changed")
  /\ IF r.ok THEN
       /\ Expect(Near(r.link, S0, lp, 3), line, "C30.expectation")
       /\ Expect(r.names, line, "C30.names")
       /\ Expect(Near(r.again, S0, lp, 3), line, "C30.json")
       \* the sampler has this expectation and draws inside its support
       /\ Expect(r.drew, line, "C30.draws")
       /\ Expect(r.outside = 0, line, "C30.support")
       /\ Expect(Near(r.sampler, S0, lp, 3), line, "C30.sampler-mean")
       /\ CASE r.tp = "logistic" -> Expect(Share900(r.avg, r.e) /\ Share900(r.avg2, r.e), line, "C30.average")
            [] r.tp = "linear" -> /\ Expect(Near(r.avg, S0, lp, r.tol) /\ Near(r.avg2, S0, lp, r.tol), line, "C30.average")
                                  /\ Expect(Near(r.sd, S0, R(r.se), 2), line, "C30.error")
            [] r.tp = "poisson" -> Expect(r.avg - r.e <= r.tol /\ r.e - r.avg <= r.tol /\ r.avg2 - r.e <= r.tol /\ r.e - r.avg2 <= r.tol, line, "C30.average")
     ELSE TRUE

\* more of the linear predictor, more probability
Multi(r, line) ==
  LET n == Len(r.intercepts)
      lp == [i \in 1..n |-> Add(R(r.intercepts[i]), Predictor(Regs(r.regs[i]), Vals(r.vals[i])))]
      total == SumQ([i \in 1..n |-> <<r.probs[i], 1>>], 1..n)[1]
  IN /\ Expect(r.ok, line, "C30.refused")
     /\ Expect(r.doc, line, "C30.document-changed")
     /\ IF r.ok THEN
          /\ Expect(Len(r.probs) = n /\ total - S0 <= n /\ S0 - total <= n /\ \A i \in 1..n : r.probs[i] >= 0, line, "C30.classes-sum")
          /\ Expect(\A i, j \in 1..n : LessEq(lp[i], lp[j]) => r.probs[i] <= r.probs[j] + 1, line, "C30.classes-order")
          /\ Expect(r.drew /\ r.outside = 0, line, "C30.support")
          /\ Expect(\A i \in 1..n : Share900(r.shares[i], r.probs[i]) /\ Share900(r.shares2[i], r.probs[i]), line, "C30.classes-share")
        ELSE TRUE

Hazards(r, line) ==
  LET b == Base(r.b)  rr == R(r.rr)  p == R(r.p) IN
  /\ Expect(r.ok, line, "C30.refused")
  /\ IF r.ok THEN
       /\ \A i \in DOMAIN r.cum : Expect(Close(r.cum[i][2], Cum(b, R(r.cum[i][1]))), line, "C30.cumulative")
       /\ \A i \in DOMAIN r.inv : Expect(Close(r.inv[i][2], InvCum(b, R(r.inv[i][1]))), line, "C30.inverse")
       /\ IF b.tp # "empirical"
          THEN /\ Expect(Close(r.mean, WaitMean(b, rr)), line, "C30.wait-mean")
               /\ Expect(Close(r.var, WaitVar(b, rr)), line, "C30.wait-spread")
               /\ Expect(Close(r.zmean, ZeroMean(b, rr, p)), line, "C30.zero-mean")
               /\ Expect(Close(r.zvar, ZeroVar(b, rr, p)), line, "C30.zero-spread")
          ELSE TRUE
       /\ \A i \in DOMAIN r.rate : LET q == Rate(b, rr, R(r.rate[i][1])) IN
             /\ Expect(Close(r.rate[i][2], q), line, "C30.density")
             /\ Expect(Close(r.rate[i][3], q), line, "C30.zero-density")
       /\ Expect(r.negative = "-inf", line, "C30.outside")
       /\ Expect(Near(r.atzero, S0, p, 2), line, "C30.zero-probability")
       /\ Expect(r.drew, line, "C30.draws")
       /\ Expect(r.below = 0, line, "C30.support")
       \* r.beyond: <<quarters of hazard, how many of 1000 wait longer, how many with zero inflation>>
       /\ \A i \in DOMAIN r.beyond : LET w == Waiting(r.beyond[i][1])
                                         z == (w * (p[2] - p[1])) \div p[2] IN
             /\ Expect(36 * w * (1000 - w) + 40000 >= 1000 * Square(r.beyond[i][2] - w), line, "C30.share-waiting")
             /\ Expect(36 * z * (1000 - z) + 60000 >= 1000 * Square(r.beyond[i][3] - z), line, "C30.zero-share")
       /\ LET z == (1000 * p[1]) \div p[2] IN Expect(36 * z * (1000 - z) + 40000 >= 1000 * Square(r.zeros - z), line, "C30.zero-count")
     ELSE TRUE

\* the risk ratio of a Cox regression is the exponential of its linear predictor:
\* the logarithm of (expectation over that at risk ratio one) is minus the predictor over the shape
Cox(r, line) ==
  LET b == Base(r.b)
      lp == Predictor(Regs(r.regs), Vals(r.vals))
      want == Neg(IF b.tp = "empirical" THEN lp ELSE Div(lp, Shape(b)))
      zp == Add(R(r.intercept), Predictor(Regs(r.zregs), Vals(r.zvals)))
  IN /\ Expect(r.ok, line, "C30.refused")
     /\ Expect(r.doc, line, "C30.document-changed")
     /\ IF r.ok THEN
          /\ Expect(b.tp # "empirical" => Near(r.ratio, S0, want, 4), line, "C30.cox-expectation")
          /\ Expect(b.tp # "empirical" => Near(r.samplerratio, S0, want, 4), line, "C30.cox-sampler")
          \* density of the sampler at a time, over that at risk ratio one, with the shares taken out
          /\ Expect(Near(r.rate, S1, lp, 5), line, "C30.cox-density")
          /\ Expect(Near(r.zlogit, S0, zp, 4), line, "C30.cox-zero")
          /\ Expect(b.tp # "empirical" => Near(r.zratio, S0, want, 4), line, "C30.cox-zero-expectation")
          /\ Expect(Near(r.zrate, S1, lp, 5), line, "C30.cox-zero-density")
          /\ Expect(r.drew /\ r.below = 0, line, "C30.support")
          \* how many of 1000 predictions wait beyond the time of hazard one
          /\ \A i \in DOMAIN r.beyond : LET w == Waiting(r.beyond[i][1]) IN Expect(36 * w * (1000 - w) + 40000 >= 1000 * Square(r.beyond[i][2] - w), line, "C30.cox-share")
          /\ LET w == (r.keep * 368) \div 1000 IN Expect(36 * w * (1000 - w) + 60000 >= 1000 * Square(r.zbeyond - w), line, "C30.cox-zero-share")
        ELSE TRUE

Judge(r, line) ==
  CASE r.k = "glm" -> Glm(r, line)
    [] r.k = "multi" -> Multi(r, line)
    [] r.k = "hazard" -> Hazards(r, line)
    [] r.k = "cox" -> Cox(r, line)
    [] r.k = "unknown" -> Expect(~r.ok, line, "C30.unknown-baseline")
    \* what is not fully described, and values that do not exist, are refused
    [] r.k = "refuse" -> Expect(~r.ok, line, "C30.accepted")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
