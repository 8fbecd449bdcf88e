-------------------------------- MODULE Dag --------------------------------
(***************************************************************************)
(* Queries on acyclic graphs answer by reachability (bayesnet/dag.py).     *)
(* A graph is its set of nodes V and its set of edges E.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Graphs

Upstream(E, S) == UNION {Ancestors(E, n) : n \in S}
Downstream(E, S) == UNION {Descendants(E, n) : n \in S}

\* edges that do not lead into a given node
Outside(E, G) == {e \in E : e[2] \notin G}
Sufficient(E, S, G) == Bwd(Outside(E, G), S)
Minimal(E, S, G) == Sufficient(E, S, G) \ G
Requirements(E, t, G) == Ancestors(Outside(E, G \ {t}), t)
Between(E, S) == Fwd(E, S) \cap Bwd(E, S)
Induced(E, W) == {e \in E : e[1] \in W /\ e[2] \in W}

CutOut(E, n) == {e \in E : e[1] # n}
CutIn(E, n) == {e \in E : e[2] # n}
WithoutUpstream(V, E, S) == V \ (Upstream(E, S) \ S)
WithoutDownstream(V, E, S) == V \ (Downstream(E, S) \ S)
=============================================================================
