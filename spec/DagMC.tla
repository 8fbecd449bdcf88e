------------------------------- MODULE DagMC -------------------------------
(***************************************************************************)
(* Stage M and G for C05: every acyclic graph over V0, every set of targets*)
(* and of given nodes.  The operators are compared with their meaning:     *)
(* smallest closed sets, and unions of explicit paths.                     *)
(***************************************************************************)
EXTENDS Dag, Json, SequencesExt, FiniteSetsExt
CONSTANTS V0
VARIABLES E, S, G

Pairs == {e \in V0 \X V0 : e[1] # e[2]}
Dags == {F \in SUBSET Pairs : Acyclic(V0, F)}
Init == E \in Dags /\ S \in (SUBSET V0 \ {{}}) /\ G \in SUBSET V0
Next == UNCHANGED <<E, S, G>>

Closed(W, F) == \A n \in W : Pre(F, n) \subseteq W
ClosedOutside(W) == \A n \in W \ G : Pre(E, n) \subseteq W
SufficientIsLeast ==
    LET R == Sufficient(E, S, G) IN
    /\ S \subseteq R /\ ClosedOutside(R)
    /\ \A W \in SUBSET V0 : S \subseteq W /\ ClosedOutside(W) => R \subseteq W
MinimalNeeded == LET R == Minimal(E, S, G) IN
    /\ R \cap G = {} /\ \A n \in R : Pre(E, n) \subseteq R \cup G
\* explicit paths
RECURSIVE Paths(_, _)
Paths(a, b) == IF a = b THEN {{a}} ELSE UNION {{{a} \cup p : p \in Paths(c, b)} : c \in Post(E, a)}
BetweenIsPaths == Between(E, S) = UNION UNION {Paths(a, b) : a \in S, b \in S}
RequirementsRight == \A t \in V0 :
    Requirements(E, t, G) = UNION {Sufficient(E, {p}, G \ {t}) : p \in Pre(E, t)}
Dual == \A a, b \in V0 : (a \in Ancestors(E, b)) <=> (b \in Descendants(E, a))
SidesAcyclic == /\ Acyclic(V0, Induced(E, WithoutUpstream(V0, E, S)))
                /\ S \subseteq WithoutUpstream(V0, E, S) /\ S \subseteq WithoutDownstream(V0, E, S)
                /\ \A n \in S : Pre(Induced(E, WithoutUpstream(V0, E, S)), n) \subseteq S

\* generation of the graphs
InitG == E \in Dags /\ S = {} /\ G = {}
Emit == PrintT(<<"D", ToJson(SetToSeq(E))>>)
=============================================================================
