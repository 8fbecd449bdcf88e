------------------------------ MODULE DagTrace ------------------------------
(* Validation of recorded answers and changes of real graphs (C05).         *)
EXTENDS Dag, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

EdgeSet(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Bad(line, clause, i) == PrintT(<<"BAD", line, clause, i>>)

Right(V, E, q) ==
  LET A == RangeOf(q.a)  B == RangeOf(q.b)  x == IF q.a = <<>> THEN "" ELSE q.a[1] IN
  CASE q.f = "parents" -> Lists(q.r, Pre(E, x))
    [] q.f = "children" -> Lists(q.r, Post(E, x))
    [] q.f = "ancestors" -> Lists(q.r, Ancestors(E, x))
    [] q.f = "descendants" -> Lists(q.r, Descendants(E, x))
    [] q.f = "upstream" -> Lists(q.r, Upstream(E, A))
    [] q.f = "downstream" -> Lists(q.r, Downstream(E, A))
    [] q.f = "offsprings" -> Lists(q.r, Downstream(E, A))
    [] q.f = "roots" -> Lists(q.r, RootsOf(V, E))
    [] q.f = "leaves" -> Lists(q.r, LeavesOf(V, E))
    [] q.f = "order" -> IsOrder(q.r, V, E)
    [] q.f = "sort" -> IsSubOrder(q.r, A \cap V, E)
    [] q.f = "acyclic" -> q.r = <<"yes">>
    [] q.f = "sufficient" -> Lists(q.r, Sufficient(E, A, B))
    [] q.f = "minimal" -> Lists(q.r, Minimal(E, A, B))
    [] q.f = "requirements" -> IsSubOrder(q.r, Requirements(E, x, B), E)
    [] q.f = "minimal_dag" -> Lists(q.r, Between(E, A)) /\ EdgeSet(q.e) = Induced(E, Between(E, A))
    \* changes: r and e are the nodes and edges afterwards
    [] q.f = "remove_out_edges" -> Lists(q.r, V) /\ EdgeSet(q.e) = CutOut(E, x)
    [] q.f = "remove_in_edges" -> Lists(q.r, V) /\ EdgeSet(q.e) = CutIn(E, x)
    [] q.f = "remove_upstream" -> LET W == WithoutUpstream(V, E, A) IN Lists(q.r, W) /\ EdgeSet(q.e) = Induced(E, W)
    [] q.f = "remove_downstream" -> LET W == WithoutDownstream(V, E, A) IN Lists(q.r, W) /\ EdgeSet(q.e) = Induced(E, W)
    \* the union with a second graph
    [] q.f = "merge" -> Lists(q.r, V \cup RangeOf(q.h.nodes)) /\ EdgeSet(q.e) = E \cup EdgeSet(q.h.edges)
    [] q.f = "merge_acyclic" -> q.r = IF Acyclic(V \cup RangeOf(q.h.nodes), E \cup EdgeSet(q.h.edges)) THEN <<"yes">> ELSE <<"no">>
    [] OTHER -> FALSE

Judge(r, line) ==
  LET V == RangeOf(r.nodes)  E == EdgeSet(r.edges) IN
  /\ \A i \in DOMAIN r.q :
        IF ~r.q[i].ok THEN Bad(line, "C05.refused-" \o r.q[i].f, i)
        ELSE IF Right(V, E, r.q[i]) THEN TRUE ELSE Bad(line, "C05." \o r.q[i].f, i)
  /\ IF r.changed = <<>> THEN TRUE ELSE Bad(line, "C05.changed-by-query", 0)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
