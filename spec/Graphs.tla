------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Finite directed graphs as a set of edges over a set of nodes.           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

RangeOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Len(s) = Cardinality(RangeOf(s))

Pre(E, n) == {e[1] : e \in {f \in E : f[2] = n}}
Post(E, n) == {e[2] : e \in {f \in E : f[1] = n}}

RECURSIVE Fwd(_, _), Bwd(_, _)
\* nodes reachable from S (S included), nodes reaching S (S included)
Fwd(E, S) == LET T == S \cup {e[2] : e \in {f \in E : f[1] \in S}} IN IF T = S THEN S ELSE Fwd(E, T)
Bwd(E, S) == LET T == S \cup {e[1] : e \in {f \in E : f[2] \in S}} IN IF T = S THEN S ELSE Bwd(E, T)

Descendants(E, n) == Fwd(E, Post(E, n))
Ancestors(E, n) == Bwd(E, Pre(E, n))
Acyclic(V, E) == \A n \in V : n \notin Descendants(E, n)

RootsOf(V, E) == {n \in V : Pre(E, n) = {}}
LeavesOf(V, E) == {n \in V : Post(E, n) = {}}

\* a sequence listing exactly the set S, parents before children along E (directly or not)
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Lists(s, S) == Distinct(s) /\ RangeOf(s) = S
TopoSorted(s, E) == \A i, j \in DOMAIN s : i < j => <<s[j], s[i]>> \notin E
IsOrder(s, V, E) == Lists(s, V) /\ TopoSorted(s, E)
\* order of a subset: consistent with reachability, not only with direct edges
IsSubOrder(s, S, E) == Lists(s, S) /\ \A i, j \in DOMAIN s : i < j => s[i] \notin Descendants(E, s[j])
=============================================================================
