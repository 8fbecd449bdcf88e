--------------------------- MODULE BayesNetTrace ---------------------------
(***************************************************************************)
(* Validation of recorded histories of real networks.  Every record holds  *)
(* the call, whether it was accepted, and the projection of all networks   *)
(* alive after the call.                                                   *)
(***************************************************************************)
EXTENDS BayesNet, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

\* recorded network -> abstract network
NodesOf(p) == [x \in DOMAIN p.nodes |-> [kind |-> p.nodes[x].kind, par |-> RangeOf(p.nodes[x].par),
                                         tag |-> p.nodes[x].tag, des |-> p.nodes[x].des]]
Abs(p) == [name |-> p.name, open |-> p.open, defs |-> NodesOf(p), fns |-> RangeOf(p.fns)]
RecEdges(p) == {<<p.edges[i][1], p.edges[i][2]>> : i \in DOMAIN p.edges}

DefOf(r) == [kind |-> r.d.kind, par |-> RangeOf(r.d.par), tag |-> r.d.tag, des |-> r.d.des]

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)

\* the network reports the graph of its definitions; pr is the property the call belongs to
Consistent(p, line, pr) ==
    LET D == NodesOf(p)  V == DOMAIN D  E == EdgesOf(D) IN
    /\ Expect("err" \notin DOMAIN p, line, pr \o ".report-error")
    /\ Expect(RecEdges(p) = E, line, pr \o ".edges")
    /\ Expect(Acyclic(V, RecEdges(p)), line, pr \o ".acyclic")
    /\ Expect(IsOrder(p.order, V, E), line, pr \o ".order")
    /\ Expect(Lists(p.roots, RootsOf(V, E)), line, pr \o ".roots")
    /\ Expect(Lists(p.leaves, LeavesOf(V, E)), line, pr \o ".leaves")
    /\ Expect(Lists(p.exo, ExoOf(D)), line, pr \o ".exo")
    /\ Expect(Lists(p.rvroots, RvRootsOf(D)), line, pr \o ".rvroots")
    /\ Expect(\A x \in V : (x \in RangeOf(p.chance)) = ChanceOf(D, x, {}), line, pr \o ".chance")
    /\ Expect(\A x \in V : (x \in RangeOf(p.chance_given)) = ChanceOf(D, x, RangeOf(p.given)), line, pr \o ".chance-given")
    /\ Expect(Lists(p.sorted, RangeOf(p.given) \cap V) /\ \A i, j \in DOMAIN p.sorted :
                 i < j => p.sorted[i] \notin Descendants(E, p.sorted[j]), line, pr \o ".sort")
    /\ Expect(IsOrder(p.json.order, V, E) /\ Lists(p.json.roots, RootsOf(V, E)) /\ Lists(p.json.leaves, LeavesOf(V, E))
              /\ Lists(p.json.exo, ExoOf(D)) /\ Lists(p.json.names, V), line, pr \o ".document")

\* networks not concerned by the call stay as they were
Frame(r, line, others, clause) ==
    \A k \in others : Expect(k \in DOMAIN r.nets /\ Abs(r.nets[k]) = st[k], line, clause)

Ids == DOMAIN st
Has(r, k) == k \in DOMAIN r.nets

Judge(r, line) ==
  CASE r.op = "reset" -> TRUE
    [] r.op = "new" -> /\ Expect(r.ok /\ Has(r, r.id) /\ Abs(r.nets[r.id]) = Empty(r.name), line, "C01.new")
                       /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "define" ->
         LET N == st[r.id]  d == DefOf(r) IN
         /\ IF CanDefine(N, r.x, d)
            THEN /\ Expect(r.ok, line, "C02.wrongly-refused")
                 /\ IF r.ok THEN /\ Expect(Abs(r.nets[r.id]).defs = Define(N, r.x, d).defs, line, "C01.definition")
                                 /\ Expect(Abs(r.nets[r.id]).open = TRUE /\ Abs(r.nets[r.id]).name = N.name
                                           /\ Abs(r.nets[r.id]).fns = N.fns, line, "C01.name-open")
                                 /\ Consistent(r.nets[r.id], line, "C01")
                    ELSE TRUE
            ELSE /\ Expect(~r.ok, line, IF N.open THEN "C02.cycle-accepted" ELSE "C02.completed-accepted")
                 /\ Expect(Abs(r.nets[r.id]) = N, line, "C02.not-atomic")
                 /\ Consistent(r.nets[r.id], line, "C02")
         /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "bad" ->
         /\ Expect(~r.ok, line, "C02.ill-formed-accepted")
         /\ Expect(Abs(r.nets[r.id]) = st[r.id], line, "C02.not-atomic")
         /\ Consistent(r.nets[r.id], line, "C02")
         /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "addfn" ->
         LET N == st[r.id] IN
         /\ Expect(r.ok = CanAddFn(N, r.f), line, "C03.function-refused")
         /\ Expect(Abs(r.nets[r.id]) = AddFn(N, r.f), line, "C03.function")
         /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "complete" ->
         /\ Expect(r.ok /\ Abs(r.nets[r.id]) = Complete(st[r.id]), line, "C01.complete")
         /\ Consistent(r.nets[r.id], line, "C01")
         /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "defrost" ->
         /\ Expect(r.ok /\ Abs(r.nets[r.id]) = Defrost(st[r.id]), line, "C01.defrost")
         /\ Consistent(r.nets[r.id], line, "C01")
         /\ Frame(r, line, Ids \ {r.id}, "C03.independent")
    [] r.op = "copy" ->
         /\ Expect(r.ok /\ Has(r, r.to) /\ Abs(r.nets[r.to]) = CopyOf(st[r.id], r.name), line, "C03.copy")
         /\ IF Has(r, r.to) THEN Consistent(r.nets[r.to], line, "C03") ELSE TRUE
         /\ Frame(r, line, Ids \ {r.to}, "C03.source")
    [] r.op \in {"clone", "json", "script", "fromtext"} ->
         /\ Expect(r.ok /\ Has(r, r.to) /\ Reproduces(Abs(r.nets[r.to]), st[r.id]), line, "C03." \o r.op)
         /\ IF Has(r, r.to) THEN Consistent(r.nets[r.to], line, "C03") ELSE TRUE
         /\ Frame(r, line, Ids \ {r.to}, "C03.source")
    [] r.op = "merge" ->
         /\ IF CanMerge(st[r.id].defs, st[r.with].defs)
            THEN /\ Expect(r.ok, line, "C04.merge-refused")
                 /\ IF r.ok /\ Has(r, r.to)
                    THEN /\ Expect(Abs(r.nets[r.to]).defs = Merge(st[r.id], st[r.with], r.name).defs, line, "C04.merge")
                         /\ Expect(Abs(r.nets[r.to]).open, line, "C04.merge-open")
                         /\ Expect(Abs(r.nets[r.to]).fns = st[r.id].fns \cup st[r.with].fns, line, "C04.merge-functions")
                         /\ Expect(r.nets[r.to].name = r.name, line, "C04.merge-name")
                         /\ Consistent(r.nets[r.to], line, "C04")
                    ELSE TRUE
            ELSE Expect(~r.ok, line, "C04.merge-cycle")
         /\ Frame(r, line, Ids \ {r.to}, "C04.sources")
    [] r.op = "extend" ->
         /\ IF CanExtend(st[r.id].defs, st[r.with].defs, r.override)
            THEN /\ Expect(r.ok, line, "C04.extend-refused")
                 /\ IF r.ok
                    THEN /\ Expect([Abs(r.nets[r.with]) EXCEPT !.fns = {}] = [Extend(st[r.id], st[r.with], r.override) EXCEPT !.fns = {}],
                                   line, "C04.extend")
                         /\ Expect(LET F == Abs(r.nets[r.with]).fns
                                   IN st[r.with].fns \subseteq F /\ F \subseteq st[r.id].fns \cup st[r.with].fns,
                                   line, "C04.extend-functions")
                         /\ Consistent(r.nets[r.with], line, "C04")
                    ELSE TRUE
            ELSE Expect(~r.ok, line, "C04.extend-cycle")
         /\ Frame(r, line, Ids \ {r.with}, "C04.sources")
    [] r.op = "extendnew" ->
         /\ Expect(r.ok /\ Has(r, r.to) /\ Reproduces(Abs(r.nets[r.to]), st[r.id]), line, "C04.extend-new")
         /\ IF Has(r, r.to) THEN Consistent(r.nets[r.to], line, "C04") ELSE TRUE
         /\ Frame(r, line, Ids \ {r.to}, "C04.sources")
    [] OTHER -> Bad(line, "unknown-op")

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ st' = [k \in DOMAIN Trace[l].nets |-> Abs(Trace[l].nets[k])]
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
