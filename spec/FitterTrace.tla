---------------------------- MODULE FitterTrace ----------------------------
(* Validation of recorded lives of real fitters (C31).                      *)
EXTENDS Fitter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F, fits, draws, look

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
MapOf(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* settings which the algorithm works out for itself
Derived == {"n_pars"}
SameSettings(S, T) == DOMAIN S = DOMAIN T /\ \A k \in DOMAIN S \ Derived : S[k] = T[k]
Plain(S) == [k \in DOMAIN S \ Derived |-> S[k]]
\* the outcomes seen so far: pairs of what was asked for and what came of it; "" where it cannot be reproduced
Agrees(seen, k, v) == v = "" \/ \A e \in seen : e[1] = k => e[2] = v

After(r) ==
  CASE r.op = "new" -> Made(r.kind, MapOf(r.defaults), MapOf(r.kw))
    [] r.op = "update" -> Updated(F[r.f], MapOf(r.kw))
    [] r.op = "attach" -> Attached(F[r.f], r.m)
    [] r.op = "close" -> Closed(F[r.f])
    [] r.op = "fit" -> Fitted(F[r.f], MapOf(r.kw), r.m, r.seed, IF r.ok THEN "done" ELSE r.stage)
    [] OTHER -> F[r.f]

KeyOf(f, r) == Key(f.kind, Plain(f.set), r.m, r.seed)
DrawOf(f, r) == <<f.res[2][1], Plain(f.res[2][2]), f.res[2][3], f.res[2][4], r.n, r.seed>>

Judge(r, line) ==
  LET G == (r.f :> After(r)) @@ F
      f == G[r.f] IN
  \* every fitter as it should look
  /\ \A i \in DOMAIN r.look : LET o == r.look[i] IN
       /\ Expect(SameSettings(MapOf(o.set), G[o.f].set), line, IF o.f = r.f THEN "C31.settings" ELSE "C31.others-settings")
       /\ Expect(o.model = G[o.f].model, line, "C31.model")
       /\ Expect((r.op = "fit" /\ o.f = r.f) \/ ~(o.f \in DOMAIN look) \/ look[o.f] = o.state, line, "C31.state-changed")
  /\ Expect({r.look[i].f : i \in DOMAIN r.look} = DOMAIN G, line, "C31.fitters")
  /\ CASE r.op \in {"new", "update", "attach", "close"} -> Expect(r.ok, line, "C31.refused-" \o r.op)
       [] r.op = "fit" ->
            /\ Expect(r.ok = (r.stage = "done"), line, IF r.ok THEN "C31.failure-hidden" ELSE "C31.refused-fit")
            /\ Expect(r.events = (CASE r.stage = "done" -> <<"initialise", "update", "terminate">>
                                    [] r.stage = "start" -> <<"initialise">>
                                    [] OTHER -> <<"initialise", "update">>), line, "C31.phases")
            /\ Expect(r.fresh, line, "C31.collector")
            /\ IF r.ok /\ r.stage = "done"
               THEN /\ Expect(r.rounds = [i \in DOMAIN r.rounds |-> i - 1] /\ (f.kind = "smc" => Len(r.rounds) >= 2), line, "C31.trace")
                    /\ Expect(r.times = [i \in DOMAIN r.times |-> i - 1], line, "C31.trace-times")
                    /\ Expect(Agrees(fits, KeyOf(f, r), r.digest), line, "C31.depends-on-history")
               ELSE TRUE
       [] r.op = "sample" ->
            IF MustRefuse(F[r.f]) THEN Expect(~r.ok, line, "C31.sampled-without-fit")
            ELSE IF CanSample(F[r.f])
            THEN /\ Expect(r.ok, line, "C31.refused-sample")
                 /\ r.ok => /\ Expect(r.n = r.got, line, "C31.sample-size")
                            /\ Expect(Agrees(draws, DrawOf(F[r.f], r), r.digest), line, "C31.sample-depends-on-history")
            ELSE TRUE
       [] OTHER -> TRUE
  /\ F' = G
  /\ look' = [i \in DOMAIN G |-> LET j == CHOOSE j \in DOMAIN r.look : r.look[j].f = i IN r.look[j].state]
  /\ fits' = IF r.op = "fit" /\ r.ok /\ r.stage = "done" /\ r.digest # "" THEN fits \cup {<<KeyOf(f, r), r.digest>>} ELSE fits
  /\ draws' = IF r.op = "sample" /\ r.ok /\ r.digest # "" /\ CanSample(f) THEN draws \cup {<<DrawOf(f, r), r.digest>>} ELSE draws

Init == l = 1 /\ F = <<>> /\ fits = {} /\ draws = {} /\ look = <<>>
Next == /\ l <= Len(Trace)
        /\ IF Trace[l].op = "start" THEN F' = <<>> /\ fits' = {} /\ draws' = {} /\ look' = <<>>
           ELSE IF Trace[l].op = "drop" THEN /\ F' = [i \in DOMAIN F \ {Trace[l].f} |-> F[i]] /\ look' = [i \in DOMAIN look \ {Trace[l].f} |-> look[i]]
                                             /\ UNCHANGED <<fits, draws>>
           ELSE Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
