------------------------------ MODULE SmcTrace ------------------------------
(***************************************************************************)
(* Validation of recorded sequential ABC runs (C20).  One record per run:  *)
(* the states after 0, 1, 2, ... rounds, the monitor, the posterior.       *)
(* A particle is [id, d, own, fin]: the simulation, its distance as        *)
(* simulated, whether parameters and output are those of the simulation,   *)
(* whether its parameters are possible under the prior.                    *)
(***************************************************************************)
EXTENDS Smc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
Abs(n) == IF n < 0 THEN -n ELSE n
Set(r) == [max_round |-> r.max_round, max_stay |-> r.max_stay, min_acc |-> <<r.min_acc[1], r.min_acc[2]>>]
Live(S) == {i \in DOMAIN S.pts : S.w[i] > 0}
Ds(S) == [i \in DOMAIN S.pts |-> S.pts[i].d]
Al(r) == <<r.alpha[1], r.alpha[2]>>
Th(r) == <<r.thr[1], r.thr[2]>>
\* thresholds recorded in 1/1000 (Inf where infinite) against a threshold counted in 1/k
SameEps(m, eps, k) == IF m = Inf \/ eps = Inf THEN m = eps ELSE Abs(m * k - eps * 1000) <= k
Ids(S) == {S.pts[i].id : i \in DOMAIN S.pts}
\* thresholds according to the specification, after s rounds (counted from the first state recorded)
RECURSIVE EpsAt(_, _)
EpsAt(r, s) == IF s = 1 THEN Inf ELSE NextEps(Ds(r.states[s - 1]), EpsAt(r, s - 1), Al(r))
RECURSIVE StayAt(_, _)
StayAt(r, s) == IF s = 1 THEN 0 ELSE IF Stays(Ds(r.states[s - 1]), EpsAt(r, s - 1), Al(r)) THEN StayAt(r, s - 1) + 1 ELSE 0

Population(r, S, eps, k, line) ==
  /\ Expect(Len(S.pts) = r.n /\ Len(S.w) = r.n, line, "C20.size")
  /\ Expect(\A i \in DOMAIN S.w : S.w[i] >= 0, line, "C20.negative-weight")
  /\ Expect(LET L == Cardinality(Live(S)) IN \A i \in Live(S) : Abs(S.w[i] * L - 1000000) <= 2 * L, line, "C20.weights")
  /\ Expect(\A i \in DOMAIN S.pts : S.pts[i].own, line, "C20.parameters")
  /\ Expect(\A i \in DOMAIN S.pts : S.pts[i].fin, line, "C20.impossible")
  /\ Expect(\A i \in Live(S) : S.pts[i].d # Inf /\ (eps = Inf \/ S.pts[i].d * k <= eps), line, "C20.outside-threshold")

Step(r, s, line) ==     \* from state s - 1 to state s
  LET k == Unit(r.n, Al(r))  A == r.states[s - 1]  B == r.states[s]
      eps == EpsAt(r, s - 1)  e1 == EpsAt(r, s)
      L1 == Survivors(Live(A), Ds(A), e1, k)
      re == MustResample(L1, r.n, Th(r))
      new(i) == B.pts[i].id > A.top IN
  /\ Expect(SameEps(B.eps, e1, k), line, "C20.threshold")
  /\ Expect(B.round = s - 1 /\ B.stay = StayAt(r, s), line, "C20.round")
  /\ Population(r, B, e1, k, line)
  \* who is alive
  /\ Expect(Live(B) = IF re THEN DOMAIN B.pts ELSE L1, line, "C20.alive")
  \* where a particle comes from
  /\ Expect(\A i \in DOMAIN B.pts : \/ new(i) /\ B.pts[i].d * k <= e1
                                    \/ ~new(i) /\ (IF re THEN \E j \in L1 : A.pts[j].id = B.pts[i].id ELSE A.pts[i].id = B.pts[i].id), line, "C20.replaced")
  /\ LET moved == Cardinality({i \in DOMAIN B.pts : new(i)}) IN
     Expect(IF r.exact THEN Abs(B.acc * r.n - 10000 * moved) <= r.n ELSE B.acc * r.n >= 10000 * moved - r.n /\ B.acc <= 10000, line, "C20.acceptance")

\* stopped exactly when due; the acceptance is the recorded one
Due(r, s) == LET S == r.states[s] IN
             Stop(S.round, S.stay, S.acc, 10000, Set(r))
Serial(r, line) ==
  LET R == Len(r.states) IN
  /\ Expect(LET S == r.states[1] IN
            /\ S.round = 0 /\ S.eps = Inf
            /\ Live(S) = DOMAIN S.pts /\ \A i \in DOMAIN S.pts : S.pts[i].d # Inf, line, "C20.first")
  /\ Population(r, r.states[1], Inf, 1, line)
  /\ \A s \in 2..R : Step(r, s, line)
  /\ IF r.ok
     THEN /\ Expect(\A s \in 2..(R - 1) : ~Due(r, s), line, "C20.late")
          /\ Expect(Due(r, R), line, "C20.early")
     ELSE \* the run broke off: too few particles were left
          LET A == r.states[R] IN
          Expect(~CanGoOn(Survivors(Live(A), Ds(A), NextEps(Ds(A), EpsAt(r, R), Al(r)), Unit(r.n, Al(r)))), line, "C20.failed")

Monitor(r, line) ==
  LET m == r.monitor  F == r.states[Len(r.states)] IN
  /\ Expect(Len(m) = F.round + 1 /\ \A i \in DOMAIN m : m[i].round = i - 1, line, "C20.records")
  /\ Expect(\A i \in 2..Len(m) : m[i].eps <= m[i - 1].eps, line, "C20.rises")
  /\ Expect(r.serial => \A i \in DOMAIN m : i <= Len(r.states) => /\ m[i].eps = r.states[i].eps /\ m[i].acc = r.states[i].acc
                                                                  /\ Abs(m[i].ess - 1000 * Cardinality(Live(r.states[i]))) <= 1, line, "C20.record")

Posterior(r, line) ==
  LET F == r.states[Len(r.states)]  P == r.post IN
  /\ Expect(r.postok, line, "C20.posterior-failed")
  /\ IF r.postok
     THEN /\ Expect(Len(P) = r.n_collect, line, "C20.posterior-size")
          /\ Expect(\A i \in DOMAIN P : P[i].own /\ P[i].fin, line, "C20.posterior-parameters")
          /\ Expect(\A i \in DOMAIN P : P[i].d # Inf /\ (F.eps = Inf \/ P[i].d * 1000 <= F.eps + 1), line, "C20.posterior-outside")
          /\ Expect(\A i \in DOMAIN P : P[i].id > F.top \/ \E j \in Live(F) : F.pts[j].id = P[i].id, line, "C20.posterior-source")
          /\ Expect(r.posteps = F.eps, line, "C20.posterior-eps")
          /\ Expect(/\ Len(r.trace) = Len(r.monitor)
                    /\ \A i \in DOMAIN r.trace : r.trace[i].round = r.monitor[i].round /\ r.trace[i].eps = r.monitor[i].eps, line, "C20.trace")
          \* with one simulation for each mutation: those within the threshold are taken
          /\ Expect(r.muts # <<>> => \A i \in DOMAIN P : IF \/ F.eps # Inf /\ r.muts[i].d * 1000 < F.eps - 1
                                                           \/ r.muts[i].d * 1000 = F.eps THEN P[i].id = r.muts[i].id
                                                        ELSE IF r.muts[i].d * 1000 > F.eps + 1 THEN P[i].id # r.muts[i].id ELSE TRUE, line, "C20.posterior-mutations")
     ELSE TRUE

\* one resampling with any weights: whole numbers over their sum, the limit thr = t / 4
RECURSIVE SumTo(_, _)
SumTo(w, n) == IF n = 0 THEN 0 ELSE SumTo(w, n - 1) + w[n]
Resampling(r, line) ==
  LET W == SumTo(r.wts, Len(r.wts))
      Q == SumTo([i \in DOMAIN r.wts |-> r.wts[i] * r.wts[i]], Len(r.wts))
      live == {i \in DOMAIN r.wts : r.wts[i] > 0}
  IN IF ~CanGoOn(live) THEN Expect(~r.ok, line, "C20.too-few-accepted")
     ELSE /\ Expect(r.ok, line, "C20.resample-refused")
          /\ IF r.ok
             THEN IF r.t * Q > 4 * W * W      \* the effective size W^2 / Q is below t / 4
                  THEN /\ Expect(\A i \in DOMAIN r.w : Abs(r.w[i] * r.n - 1000000) <= r.n, line, "C20.restarted-weights")
                       /\ Expect(Len(r.src) = r.n /\ \A i \in DOMAIN r.src : r.src[i] \in live, line, "C20.restarted-from")
                  ELSE /\ Expect(\A i \in DOMAIN r.w : Abs(r.w[i] * W - 1000000 * r.wts[i]) <= W, line, "C20.kept-weights")
                       /\ Expect(r.src = [i \in 1..r.n |-> i], line, "C20.kept-particles")
             ELSE TRUE

Judge(r, line) ==
  IF "wts" \in DOMAIN r THEN Resampling(r, line) ELSE
  IF r.states = <<>> THEN Bad(line, "C20.failed") ELSE
  /\ IF r.serial THEN Serial(r, line)
     ELSE /\ Expect(r.ok, line, "C20.failed")
          /\ IF r.ok THEN Population(r, r.states[1], r.states[1].eps, 1000, line) ELSE TRUE
  /\ IF r.ok THEN Monitor(r, line) /\ Posterior(r, line) ELSE TRUE
  /\ Expect(r.parents, line, "C20.parents")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
