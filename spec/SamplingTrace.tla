--------------------------- MODULE SamplingTrace ---------------------------
(* Validation of recorded sampling (C08, C09), evaluation (C10) and          *)
(* interventions on chromosomes (C11).                                      *)
EXTENDS Sampling, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, D, ch

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)

\* maps are recorded as sequences of pairs
Map(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j][1] = x IN s[i][2]]
IsMap(s) == \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j
LogOf(s) == [i \in DOMAIN s |-> [x |-> s[i].x, v |-> s[i].v, pas |-> Map(s[i].pas)]]
NetOf(s) == [x \in {s[i].x : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].x = x
                                                 IN [kind |-> s[i].kind, par |-> RangeOf(s[i].par), c |-> s[i].c]]
ChOf(s) == [i \in {s[k].id : k \in DOMAIN s} |-> LET k == CHOOSE j \in DOMAIN s : s[j].id = i
                                                 IN [vals |-> Map(s[k].vals), lp |-> s[k].lp]]
Same(a, b, S) == \A i \in S : i \in DOMAIN a /\ i \in DOMAIN b /\ a[i] = b[i]

Judge(r, line) ==
  LET new == ChOf(r.ch)
      log == LogOf(r.log)
      Frame(S) == Expect(DOMAIN ch \ S \subseteq DOMAIN new /\ Same(ch, new, DOMAIN ch \ S), line, "C11.others-changed")
      Caches == \A i \in DOMAIN new : Expect(CacheRight(D, new[i].vals, new[i].lp), line, "C11.cached-probability")
  IN
  CASE r.op = "net" -> TRUE
    [] r.op = "sample" ->
         LET g == Map(r.given) IN
         IF CanSample(D, g)
         THEN /\ Expect(r.ok, line, "C08.refused")
              /\ IF r.ok
                 THEN LET res == Map(r.res) IN
                      /\ Expect(DOMAIN res = DOMAIN D \cup DOMAIN g, line, "C08.variables")
                      /\ Expect(Agree(res, g, DOMAIN g), line, "C08.given-changed")
                      /\ Expect(SampleRight(D, g, log, res), line, "C08.ancestral")
                      /\ Expect(r.same, line, "C08.inputs-changed")
                      /\ IF r.chrom THEN Expect(r.lp = LogProbOf(D, res, FALSE), line, "C10.of-sample") ELSE TRUE
                 ELSE TRUE
         ELSE Expect(~r.ok, line, "C08.exogenous-missing") /\ Expect(r.same, line, "C08.inputs-changed")
    [] r.op = "minimal" ->
         LET g == Map(r.given)  S == RangeOf(r.targets) IN
         IF CanMinimal(D, S, g)
         THEN /\ Expect(r.ok, line, "C09.refused")
              /\ IF r.ok
                 THEN LET sinks == Map(r.sinks)
                          med == Map(r.med) IN
                      /\ Expect(DOMAIN sinks = S, line, "C09.targets")
                      /\ IF r.sources THEN /\ Expect(MinimalRight(D, S, g, log, sinks, med), line, "C09.minimal")
                         ELSE /\ Expect({log[i].x : i \in DOMAIN log} = (Needed(D, S, g) \cap Calc(D)) \ DOMAIN g
                                        /\ Len(log) = Cardinality((Needed(D, S, g) \cap Calc(D)) \ DOMAIN g), line, "C09.evaluated")
                              /\ LET made == [x \in {log[i].x : i \in DOMAIN log} |-> log[CHOOSE i \in DOMAIN log : log[i].x = x].v]
                                     all == [x \in DOMAIN made \cup DOMAIN g \cup (Consts(D) \cap Needed(D, S, g)) |->
                                               IF x \in DOMAIN made THEN made[x] ELSE IF x \in DOMAIN g THEN g[x] ELSE D[x].c]
                                 IN /\ Expect(Agree(sinks, all, S), line, "C09.targets")
                                    /\ Expect(EvaluatedFrom(D, log, DOMAIN made, all), line, "C09.minimal")
                      /\ Expect(r.same, line, "C09.inputs-changed")
                 ELSE TRUE
         ELSE Expect(~r.ok, line, "C09.exogenous-missing") /\ Expect(r.same, line, "C09.inputs-changed")
    [] r.op = "evaluate" ->
         LET v == Map(r.given) IN
         IF Evaluable(D, v)
         THEN /\ Expect(r.ok, line, "C10.refused")
              /\ IF r.ok THEN Expect(r.lp = LogProb(D, v), line, "C10.sum") /\ Expect(r.same, line, "C10.inputs-changed") ELSE TRUE
         ELSE TRUE
    \* chromosomes
    [] r.op = "make" -> /\ Expect(r.ok /\ r.id \in DOMAIN new /\ new[r.id].vals = Map(r.given), line, "C11.new")
                        /\ Frame({r.id}) /\ Caches
    [] r.op \in {"clone", "json"} ->
         /\ Expect(r.ok /\ r.to \in DOMAIN new /\ new[r.to] = ch[r.id], line, "C11." \o r.op)
         /\ Frame({r.to})
    [] r.op = "score" -> /\ Expect(r.ok /\ r.id \in DOMAIN new /\ new[r.id].vals = ch[r.id].vals, line, "C11.score")
                         /\ Frame({r.id}) /\ Caches
    [] r.op = "setitem" ->
         /\ Expect(r.ok /\ new[r.id].vals = [x \in DOMAIN ch[r.id].vals \cup {r.x} |-> IF x = r.x THEN r.v ELSE ch[r.id].vals[x]], line, "C11.assign")
         /\ Frame({r.id}) /\ Caches
    [] r.op = "impose" ->       \* without a network
         LET set == Map(r.given)  v == ch[r.id].vals IN
         /\ Expect(r.ok /\ new[r.id].vals = [x \in DOMAIN v |-> IF x \in DOMAIN set THEN set[x] ELSE v[x]], line, "C11.impose")
         /\ Frame({r.id}) /\ Caches
    [] r.op = "impulse" ->
         LET set == Map(r.given)  R == RangeOf(r.redraw)  v == ch[r.id].vals IN
         /\ IF CanImpulse(D, v, set, R)
            THEN /\ Expect(r.ok, line, "C11.refused")
                 /\ IF r.ok THEN /\ Expect(ImpulseRight(D, v, set, R, log, new[r.id].vals), line, "C11.impulse")
                                 /\ Expect(r.same, line, "C11.inputs-changed")
                    ELSE TRUE
            ELSE TRUE
         /\ Frame({r.id}) /\ Caches
    [] r.op = "show" -> Expect(r.ok, line, "C11.show") /\ Frame({})
    [] OTHER -> Bad(line, "unknown-op")

Init == l = 1 /\ D = <<>> /\ ch = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           /\ Judge(r, l)
           /\ IF r.op = "net" THEN TRUE ELSE Expect(r.docs, l, "C11.image-changed")
           /\ D' = IF r.op = "net" THEN NetOf(r.net) ELSE D
           /\ ch' = ChOf(r.ch)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
