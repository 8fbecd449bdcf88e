------------------------------ MODULE HmeTrace ------------------------------
(***************************************************************************)
(* Validation of recorded history matching (C21).  One record per run:     *)
(* waves [sims, ems, cand], the final state, the posterior.                *)
(* sims: [id, x, full, conv]; ems: [k, x, id, trained] one per target;     *)
(* cand: [x, y, v] in the order of prediction.                             *)
(***************************************************************************)
EXTENDS Hme, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
Ac(r) == <<r.acc[1], r.acc[2]>>
Imps(r, w) == [i \in DOMAIN w.cand |-> Implausibility(r.e, w.cand[i].y, w.cand[i].v)]
Xs(w) == [i \in DOMAIN w.cand |-> w.cand[i].x]

\* lo, up: the bounds of this wave; the bounds of the next one follow
RECURSIVE WavesOk(_, _, _, _, _)
WavesOk(r, n, lo, up, line) ==
  IF n > Len(r.waves) THEN TRUE ELSE
  LET w == r.waves[n]
      imps == Imps(r, w)  co == CutOff(imps, r.limit, Ac(r))  S == Kept(imps, co, Ac(r))
      lo1 == [j \in DOMAIN lo |-> Lowest(Xs(w), S, j)]
      up1 == [j \in DOMAIN up |-> Highest(Xs(w), S, j)] IN
  /\ Expect(Len(w.sims) = r.n_sims, line, "C21.simulations")
  /\ Expect(\A i \in DOMAIN w.sims : w.sims[i].full, line, "C21.parameter-set")
  /\ Expect(\A i \in DOMAIN w.sims : w.sims[i].conv, line, "C21.conversion")
  /\ Expect(\A i \in DOMAIN w.sims : Inside(w.sims[i].x, lo, up), line, "C21.simulated-outside")
  \* every emulator is trained on the simulations of this wave
  /\ Expect(Len(w.ems) = Len(r.e) /\ \A k \in DOMAIN w.ems :
              /\ w.ems[k].trained
              /\ Len(w.ems[k].pts) = Len(w.sims)
              /\ {<<w.ems[k].pts[i].id, w.ems[k].pts[i].x>> : i \in DOMAIN w.ems[k].pts} = {<<w.sims[i].id, w.sims[i].x>> : i \in DOMAIN w.sims}, line, "C21.training")
  /\ Expect(Len(w.cand) = r.n_ems /\ w.same, line, "C21.candidates")
  /\ Expect(\A i \in DOMAIN w.cand : Inside(w.cand[i].x, lo, up), line, "C21.candidate-outside")
  /\ IF n = Len(r.waves)
     THEN /\ Expect({r.kept[i].i : i \in DOMAIN r.kept} = S /\ Len(r.kept) = Cardinality(S), line, "C21.kept")
          /\ Expect(\A i \in DOMAIN r.kept : r.kept[i].i \in DOMAIN imps => r.kept[i].imp = imps[r.kept[i].i], line, "C21.implausibility")
          /\ Expect(r.co = co /\ r.notes.co = co, line, "C21.cutoff")
          /\ Expect(r.lo = lo1 /\ r.up = up1, line, "C21.bounds")
          /\ Expect(LET d == r.notes.acc * Len(w.cand) - 10000 * Cardinality(S) IN Abs(d) <= Len(w.cand), line, "C21.acceptance")
          /\ Expect(LET dev(i) == LET y == w.cand[i].y IN FoldSeq(+, 0, [k \in DOMAIN r.e |-> (r.e[k] - y[k]) * (r.e[k] - y[k])])
                        tot == FoldSeq(+, 0, [i \in DOMAIN w.cand |-> IF i \in S THEN dev(i) ELSE 0])
                        m == 16 * Cardinality(S) * Len(r.e) IN
                    Abs(r.notes.mse * m - 1000 * tot) <= m, line, "C21.mse")
          \* the posterior
          /\ Expect(Len(r.post) = r.n_collect, line, "C21.posterior-size")
          /\ Expect(\A i \in DOMAIN r.post : r.post[i].full /\ r.post[i].own, line, "C21.posterior-parameters")
          /\ Expect(\A i \in DOMAIN r.post : r.post[i].inside, line, "C21.posterior-outside")
          /\ Expect(r.notes.bounds, line, "C21.reported-bounds")
     ELSE WavesOk(r, n + 1, lo1, up1, line)

Judge(r, line) ==
  /\ Expect(r.ok, line, "C21.failed")
  /\ IF r.ok
     THEN /\ Expect(Len(r.waves) = r.max_wave /\ r.wave = r.max_wave, line, "C21.waves")
          /\ WavesOk(r, 1, r.lo0, r.up0, line)
     ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
