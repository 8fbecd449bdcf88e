------------------------------ MODULE AbcTrace ------------------------------
(***************************************************************************)
(* Validation of recorded rejection ABC runs (C19).  One record per run:   *)
(* tests and tries are the simulations of every worker in order.           *)
(***************************************************************************)
EXTENDS Abc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
D(x) == <<x.d[1], x.d[2]>>
Abs(n) == IF n < 0 THEN -n ELSE n

Judge(r, line) ==
  LET tests == Cat(r.tests)
      tries == Cat(r.tries)
      fin == SelectSeq(tests, LAMBDA x : Finite(D(x)))
      k == r.p[2]
      eps == Quantile([i \in DOMAIN fin |-> D(fin[i])[2]], r.p)
      good == {i \in DOMAIN tries : Within(D(tries[i]), eps, k)} IN
  /\ Expect(r.ok, line, "C19.failed")
  /\ IF r.ok
     THEN /\ Expect(Len(fin) = r.n_test, line, "C19.tests")
          \* every test run ends with a finite distance
          /\ Expect(\A w \in DOMAIN r.tests : r.tests[w] # <<>> => Finite(D(Last(r.tests[w]))), line, "C19.unfinished-test")
          /\ IF Len(fin) = r.n_test
             THEN /\ Expect(Abs(r.eps * k - eps * 1000) <= k, line, "C19.threshold")
                  /\ Expect(Abs(r.note * k - eps * 1000) <= k, line, "C19.eps-note")
                  /\ Expect(Cardinality(good) = r.n_collect, line, "C19.collected")
                  /\ Expect(\A w \in DOMAIN r.tries : r.tries[w] # <<>> => Within(D(Last(r.tries[w])), eps, k), line, "C19.unfinished-try")
                  \* the posterior is exactly the accepted simulations
                  /\ Expect(Len(r.post) = r.n_collect /\ {r.post[i].id : i \in DOMAIN r.post} = {tries[i].id : i \in good}, line, "C19.posterior")
                  /\ Expect(Abs(r.acc * Len(tries) - 10000 * r.n_collect) <= Len(tries), line, "C19.acceptance")
             ELSE TRUE
          \* parameters: drawn from the prior for this simulation alone, and kept with it
          /\ Expect(\A i \in DOMAIN tests : tests[i].fresh, line, "C19.prior")
          /\ Expect(\A i \in DOMAIN tries : tries[i].fresh, line, "C19.prior")
          /\ Expect(\A i \in DOMAIN r.post : r.post[i].own, line, "C19.parameters")
          /\ Expect(r.rows = r.n_collect, line, "C19.rows")
     ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
