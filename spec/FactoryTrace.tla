---------------------------- MODULE FactoryTrace ----------------------------
(* Validation of recorded completions (C06), definition lines (C07) and      *)
(* registry histories (C27).                                                *)
EXTENDS Factory, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, W

Bad(line, clause, i) == PrintT(<<"BAD", line, clause, i>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause, 0)
ExpectI(cond, line, clause, i) == IF cond THEN TRUE ELSE Bad(line, clause, i)

\* environments are recorded as sequences of [n, v]
EnvOf(s) == [x \in {s[i].n : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].n = x IN s[i].v]
\* numbers are recorded as <<num, den>>; anything else as <<0, 0>>
Same(r, v) == r[2] # 0 /\ Def(v) /\ r[1] = v[1] /\ r[2] = v[2]

KwNames(g) == [i \in DOMAIN g.named |-> g.named[i][1]]
Kw(g, p) == g.named[CHOOSE i \in DOMAIN g.named : g.named[i][1] = p][2]

\* r.f, r.pos / r.named: the arguments as values of Expr; r.posS / r.namedS: as read back from the source
JudgeCall(r, line) ==
  LET nn == KwNames(r)
      posE == r.pos  nmE == [i \in DOMAIN r.named |-> r.named[i][2]]
      posS == r.posS  nmS == [i \in DOMAIN r.namedS |-> r.namedS[i][2]]
      argVars == UNION {VarsOf(posE[i]) : i \in DOMAIN posE} \cup UNION {VarsOf(nmE[i]) : i \in DOMAIN nmE}
      FormRight(g) == /\ g.ok /\ g.f = r.f /\ g.npos = 0
                      /\ Lists(KwNames(g), Params(r.f))
                      /\ \A p \in Params(r.f) : Kw(g, p) = Completed(r.f, posS, nn, nmS, p)
  IN IF ~Fits(r.f, Len(posE), nn) THEN Expect(~r.once.ok, line, "C06.unknown-accepted")
     ELSE
     /\ Expect(r.once.ok, line, "C06.refused")
     /\ IF r.once.ok THEN Expect(FormRight(r.once), line, "C06.completed") ELSE TRUE
     /\ IF r.twice.ok THEN Expect(FormRight(r.twice), line, "C06.idempotent") ELSE Expect(~r.once.ok, line, "C06.idempotent")
     /\ Expect(r.parok /\ Lists(r.parents, argVars), line, "C06.variables")
     /\ \A i \in DOMAIN r.builds :
          LET b == r.builds[i]
              env == EnvOf(b.env)
              vals == [p \in Params(r.f) |-> Eval(Completed(r.f, posE, nn, nmE, p), env)]
              dflt == [p \in Params(r.f) |-> IF Source(r.f, Len(posE), nn, p)[1] = "default"
                                             THEN Schema[r.f][IdxOf(r.f, p)][2] ELSE vals[p]]
              got == [p \in Params(r.f) |-> IF \E j \in DOMAIN b.vals : b.vals[j][1] = p
                                            THEN b.vals[CHOOSE j \in DOMAIN b.vals : b.vals[j][1] = p][2] ELSE <<0, 0>>]
          IN IF Valid(r.f, dflt)
             THEN /\ ExpectI(b.ok, line, "C06.build-refused", i)
                  /\ IF b.ok THEN /\ ExpectI(Len(b.vals) = Cardinality(Params(r.f)) /\ \A p \in Params(r.f) : Same(got[p], dflt[p]),
                                             line, "C06.parameters", i)
                                  /\ ExpectI(b.same, line, "C06.forms-differ", i)
                     ELSE TRUE
             ELSE ExpectI(~b.ok, line, "C06.invalid-built", i)

JudgeLine(r, line) ==
  LET par == IF r.form = "pseudo" THEN RangeOf(r.args) ELSE IF r.form = "exo" THEN {} ELSE VarsOf(r.e)
      kind == CASE r.form = "assign" -> (IF par = {} THEN "Value" ELSE "Function")
                [] r.form = "dist" -> "Distribution" [] r.form = "pseudo" -> "Pseudo" [] OTHER -> "ExoValue"
  IN /\ Expect(r.got.ok, line, "C07.refused")
     /\ IF r.got.ok
        THEN /\ Expect(r.got.kind = kind, line, "C07.kind")
             /\ Expect(r.got.name = r.name, line, "C07.name")
             /\ Expect(r.got.des = r.des, line, "C07.description")
             /\ Expect(Lists(r.got.par, par), line, "C07.parents")
             /\ \A i \in DOMAIN r.evals :
                  LET v == r.evals[i]  env == EnvOf(v.env) IN
                  /\ ExpectI(~v.changed, line, "C07.environment-changed", i)
                  /\ CASE r.form \in {"assign", "dist"} ->
                            IF par \subseteq DOMAIN env
                            THEN ExpectI(v.ok /\ Same(v.r, Eval(r.e, env)), line, "C07.value", i)
                            ELSE ExpectI(~v.ok, line, "C07.missing-parent", i)
                       [] r.form = "exo" -> IF r.name \in DOMAIN env THEN ExpectI(v.ok /\ Same(v.r, env[r.name]), line, "C07.exogenous", i)
                                            ELSE ExpectI(~v.ok, line, "C07.missing-exogenous", i)
                       [] OTHER -> ExpectI(~v.ok, line, "C07.pseudo-evaluated", i)
        ELSE TRUE

\* a call read on its own: name, arguments in order and named as written, values of the arguments
JudgeParsed(r, line) ==
  LET par == UNION {VarsOf(r.e[i]) : i \in DOMAIN r.e} IN
  /\ Expect(r.ok, line, "C07.call-refused")
  /\ IF r.ok THEN /\ Expect(r.got.f = r.f, line, "C07.call-name")
                  /\ Expect(r.got.keys = r.keys, line, "C07.call-argument-names")
                  /\ Expect(r.got.tree = r.tree, line, "C07.call-arguments")
                  /\ Expect(Lists(r.got.par, par), line, "C07.call-parents")
                  /\ Expect(Len(r.got.vars) = Len(r.e) /\ \A i \in DOMAIN r.e : Lists(r.got.vars[i], VarsOf(r.e[i])),
                            line, "C07.argument-parents")
     ELSE TRUE
  /\ Expect(r.single.ok /\ Lists(r.single.par, VarsOf(r.single.e)) /\ Lists(r.single.fns, RangeOf(r.single.wrote)),
            line, "C07.expression-parents")
  /\ \A i \in DOMAIN r.evals :
       LET v == r.evals[i]  env == EnvOf(v.env)
           vals == [j \in DOMAIN r.e |-> Eval(r.e[j], env)]
           m == Eval(v.one, env)
       IN /\ IF \A j \in DOMAIN vals : Def(vals[j])
             THEN ExpectI(v.ok /\ v.keys = r.keys /\ Len(v.vals) = Len(vals) /\ \A j \in DOMAIN vals : Same(v.vals[j], vals[j]),
                          line, "C07.call-values", i)
             ELSE ExpectI(~v.ok, line, "C07.call-missing", i)
          /\ ExpectI(v.okj /\ Len(v.part) = Len(vals) /\ \A j \in DOMAIN vals :
                          IF Def(vals[j]) THEN ~v.part[j].text /\ Same(v.part[j].r, vals[j])
                          ELSE v.part[j].text /\ v.part[j].tree = r.tree[j], line, "C07.call-document", i)
          /\ IF Def(m) THEN ExpectI(v.okm /\ Same(v.m, m), line, "C07.expression-value", i)
             ELSE ExpectI(~v.okm, line, "C07.expression-missing", i)

\* registry histories
Creators(ws) == [x \in {ws[i][1] : i \in DOMAIN ws} |-> LET i == CHOOSE j \in DOMAIN ws : ws[j][1] = x IN ws[i][2]]
Taken(r) == r.k = "function" /\ r.w = "#data" /\ r.w \in DOMAIN W /\ r.c \in DOMAIN W[r.w]
WNext(r) == CASE r.k = "wreset" -> <<>>
              [] r.k = "get" -> Get(W, r.w)
              [] Taken(r) /\ ~r.ok -> W       \* may be refused, and is not half accepted
              [] r.k \in {"register", "function"} -> Register(W, r.w, r.c, r.id)
              [] r.k = "adopt" -> [x \in DOMAIN W \cup {r.w} |-> IF x = r.w THEN Creators(r.has) ELSE W[x]]
              [] OTHER -> W
JudgeReg(r, line) ==
  LET V == WNext(r) IN
  /\ IF r.k = "get" THEN Expect(r.ok, line, "C27.get") ELSE TRUE
  /\ IF r.k \in {"register", "function"} THEN Expect(r.ok \/ Taken(r), line, "C27.register") ELSE TRUE
  \* after every step: identities and contents of all workshops
  /\ Expect({r.ws[i].w : i \in DOMAIN r.ws} = DOMAIN V \ {"#math", "#data"}, line, "C27.workshops")
  /\ \A i \in DOMAIN r.ws :
       /\ Expect(r.ws[i].same, line, "C27.same-name-same-workshop")
       /\ Expect(r.ws[i].others, line, "C27.other-name-other-workshop")
       /\ r.ws[i].w \in DOMAIN V =>
            /\ Expect(Distinct([j \in DOMAIN r.ws[i].creators |-> r.ws[i].creators[j][1]])
                      /\ Creators(r.ws[i].creators) = V[r.ws[i].w], line, "C27.creators")
            /\ Expect(\A c \in RangeOf(r.ws[i].yes) : c \in DOMAIN V[r.ws[i].w], line, "C27.contains")
            /\ Expect(\A c \in RangeOf(r.ws[i].no) : c \notin DOMAIN V[r.ws[i].w], line, "C27.contains")
  /\ IF r.k = "create"
     THEN IF r.w \in DOMAIN W /\ r.c \in DOMAIN W[r.w]
          THEN LET id == W[r.w][r.c]
                   nn == KwNames(r)
                   nmE == [i \in DOMAIN r.named |-> r.named[i][2]]
                   env == EnvOf(r.env)
                   vals == [p \in Params(r.schema) |->
                              Eval(Completed(r.schema, r.pos, nn, nmE, p), env)]
                   dflt == [p \in Params(r.schema) |-> IF Source(r.schema, Len(r.pos), nn, p)[1] = "default"
                                             THEN Schema[r.schema][IdxOf(r.schema, p)][2] ELSE vals[p]]
               IN /\ Expect(r.ok, line, "C27.create-refused")
                  /\ IF r.ok THEN /\ Expect(r.product = id, line, "C27.latest-creator")
                                  /\ Expect(\A p \in Params(r.schema) : \E j \in DOMAIN r.vals :
                                        r.vals[j][1] = p /\ Same(r.vals[j][2], dflt[p]), line, "C27.product")
                     ELSE TRUE
          ELSE Expect(~r.ok, line, "C27.unknown-created")
     ELSE TRUE
  \* functions and data functions registered so far stay usable
  /\ IF r.k = "use" THEN /\ Expect(r.ok, line, "C27.function-unusable")
                         /\ IF r.ok THEN Expect(Same(r.r, <<W[r.w][r.c] * r.x + W[r.w][r.c], 1>>), line, "C27.function-value") ELSE TRUE
     ELSE TRUE

Init == l = 1 /\ W = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           /\ CASE r.k = "call" -> JudgeCall(r, l) /\ W' = W
                [] r.k = "line" -> JudgeLine(r, l) /\ W' = W
                [] r.k = "parsed" -> JudgeParsed(r, l) /\ W' = W
                [] OTHER -> JudgeReg(r, l) /\ W' = WNext(r)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
