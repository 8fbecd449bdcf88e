--------------------------- MODULE DataModelTrace ---------------------------
(* Validation of recorded lives of data models and particles (C18, C23).    *)
EXTENDS DataModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, C, P, S, N

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
MapOf(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
NetOf(s) == [x \in {s[i].x : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].x = x
                                                 IN [kind |-> s[i].kind, par |-> RangeOf(s[i].par), c |-> s[i].c]]
LogOf(s) == [i \in DOMAIN s |-> [x |-> s[i].x, v |-> s[i].v, pas |-> MapOf(s[i].pas)]]
Lp(x) == <<x[1], x[2]>>
\* an observed particle
One(s) == IF Len(s) = 0 THEN {} ELSE {s[1]}
Seen(o) == [pars |-> MapOf(o.pars), lp |-> Lp(o.lp), sims |-> MapOf(o.sims), xs |-> One(o.xs),
            ys |-> IF Len(o.ys) = 0 THEN {} ELSE {MapOf(o.ys[1])}, dist |-> One(o.dist), lik |-> One(o.lik), notes |-> MapOf(o.notes)]
\* parameters may be seen with surplus names only when they were given; xs may be unknown
Same(p, q) == p = q

Model(r, line) ==
  LET D == NetOf(r.net)  X == MapOf(r.exo) IN
  /\ Expect(r.ok, line, "C18.model")
  /\ IF r.ok
     THEN /\ Expect({r.dom[i].n : i \in DOMAIN r.dom} = RvRoots(D) /\ Len(r.dom) = Cardinality(RvRoots(D)), line, "C18.domain")
          /\ Expect(\A i \in DOMAIN r.dom : LET d == r.dom[i] IN
                d.n \in DOMAIN D => [lo |-> d.lo, up |-> d.up, loc |-> d.loc, sc |-> d.sc] = DomainOf(D, X, d.n), line, "C18.bounds")
          /\ Expect(RangeOf(r.free) = FreeOf(D, X, RangeOf(r.floats)) /\ Distinct(r.free), line, "C18.free")
     ELSE TRUE
  /\ C' = [D |-> D, X |-> X, K |-> RangeOf(r.data), W |-> MapOf(r.w), dom |-> [i \in DOMAIN r.dom |-> r.dom[i].n]]
  /\ P' = <<>> /\ S' = <<>> /\ N' = <<>>

Pars(r, line) ==
  LET given == IF r.op = "serve" THEN Over(MapOf(r.req), C.X) ELSE C.X
      got == MapOf(r.got) IN
  /\ Expect(r.ok, line, "C18.refused")
  /\ IF r.ok THEN /\ Expect(Len(r.got) = Cardinality(DOMAIN got) /\ ParsRight(C.D, given, LogOf(r.log), got), line, "C18.parameters")
                  /\ Expect(IF r.json THEN Lp(r.lp) = Lp(r.asked) ELSE Lp(r.lp) = LogProbOf(C.D, got, FALSE), line, "C10.served")
     ELSE TRUE
  /\ Expect(r.same, line, "C18.request-changed")
  /\ UNCHANGED <<C, P, S, N>>

After(r) ==
  CASE r.op = "new" -> Fresh(MapOf(r.pars), Lp(r.lp), MapOf(r.sims))
    [] r.op = "flatten" -> Flat(P[r.id], C.K, r.dom)
    [] r.op = "dist" -> Distance(P[r.id], C.K, C.W, r.dom)
    [] r.op = "lik" -> Likelihood(P[r.id], C.K, C.W, r.dom)
    [] r.op = "copy" -> CopyOf(P[r.src])
    [] r.op = "json" -> P[r.src]
    [] r.op = "set" -> SetPar(P[r.id], r.k, r.v)
    [] r.op = "note" -> SetNote(P[r.id], r.k, r.v)
    [] OTHER -> P[r.id]
Clause(r) == IF r.op \in {"flatten", "dist", "lik"} THEN "C18." ELSE "C23."
Step(r, line) ==
  LET P1 == IF r.op \in {"add", "keep"} THEN P ELSE (r.id :> After(r)) @@ P
      S1 == IF r.op = "add" THEN Append(S, r.id) ELSE S
      N1 == IF r.op = "keep" THEN Over(N, (r.k :> r.v)) ELSE N
      before == IF r.id \in DOMAIN P THEN P[r.id] ELSE Fresh(<<>>, <<"none", 0>>, <<>>) IN
  /\ Expect(r.ok, line, Clause(r) \o "refused")
  /\ IF r.op \in {"dist", "lik"} /\ r.ok
     THEN /\ Expect({r.val} = (IF r.op = "dist" THEN P1[r.id].dist ELSE P1[r.id].lik), line, "C18.value")
          /\ LET A == Asked(before, C.K, r.op) IN
             Expect(/\ {r.calls[i].k : i \in DOMAIN r.calls} = A /\ Len(r.calls) = Cardinality(A)
                    /\ \A i \in DOMAIN r.calls : r.calls[i].y = P1[r.id].sims[r.calls[i].k], line, "C18.once")
     ELSE TRUE
  /\ Expect({r.ps[i].id : i \in DOMAIN r.ps} = DOMAIN P1, line, "C23.particles")
  /\ \A i \in DOMAIN r.ps : LET o == r.ps[i] IN
       o.id \in DOMAIN P1 => Expect(Same(Seen(o), P1[o.id]), line,
                                    IF o.id = r.id THEN Clause(r) \o r.op ELSE "C23.others")
  /\ LET T == r.set IN
     /\ Expect(T.ok, line, "C23.set-unreadable")
     /\ IF T.ok
        THEN /\ Expect(T.ids = S1 /\ T.len = Len(S1), line, "C23.set-order")
             /\ Expect([i \in DOMAIN T.df |-> MapOf(T.df[i])] = [i \in DOMAIN S1 |-> P1[S1[i]].pars], line, "C23.set-table")
             /\ Expect([i \in DOMAIN T.js |-> MapOf(T.js[i])] = [i \in DOMAIN S1 |-> P1[S1[i]].pars], line, "C23.set-json")
             /\ Expect((\A i \in DOMAIN S1 : P1[S1[i]].ys # {}) =>
                        /\ T.predok /\ [i \in DOMAIN T.pred |-> MapOf(T.pred[i])] = [i \in DOMAIN S1 |-> The(P1[S1[i]].ys)], line, "C23.set-prediction")
             /\ Expect(MapOf(T.notes) = N1 /\ MapOf(T.jnotes) = N1, line, "C23.set-notes")
        ELSE TRUE
  /\ P' = P1 /\ S' = S1 /\ N' = N1 /\ UNCHANGED C

Init == l = 1 /\ C = <<>> /\ P = <<>> /\ S = <<>> /\ N = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           CASE r.op = "model" -> Model(r, l)
             [] r.op \in {"serve", "prior"} -> Pars(r, l)
             [] OTHER -> Step(r, l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
