------------------------------ MODULE AllocMC ------------------------------
(***************************************************************************)
(* Stage M for C12.  For every acyclic network over V0, every tree of      *)
(* groups in Shapes and every consistent declaration: variables that a     *)
(* declaration needs are allocated top-down, the others are placed one at  *)
(* a time, in any order, in the highest group that has their parents.      *)
(* Every final allocation satisfies the conditions of the trace check, so  *)
(* the conditions can be met for every consistent declaration.             *)
(***************************************************************************)
EXTENDS Alloc
CONSTANTS V0, KindsUsed, Shapes
VARIABLES D, T, A, loose

Pairs == {e \in V0 \X V0 : e[1] # e[2]}
Dags == {F \in SUBSET Pairs : Acyclic(V0, F)}
Nets == {[n \in V0 |-> [kind |-> k[n], par |-> Pre(E, n), c |-> 5]] : E \in Dags, k \in [V0 -> KindsUsed]}
GoodNets == {N \in Nets : \A n \in V0 : /\ N[n].kind \in {"Value", "ExoValue"} => N[n].par = {}
                                        /\ N[n].kind = "Function" => N[n].par # {}}
Ups == <<[r |-> ""], [r |-> "", a |-> "r"], [r |-> "", a |-> "r", b |-> "r"], [r |-> "", a |-> "r", b |-> "a"]>>
Trees(s) == LET U == Ups[s] IN
    {[g \in DOMAIN U |-> [up |-> U[g], fx |-> {x \in V0 : d[g][x] = "f"}, fl |-> {x \in V0 : d[g][x] = "l"}]] :
        d \in [DOMAIN U -> [V0 -> {"-", "f", "l"}]]}

RECURSIVE Fix(_, _, _), FixAbove(_, _, _)
FixAbove(N, R, g) == IF R[g].up = "" THEN {} ELSE FixAbove(N, R, R[g].up) \cup Fix(N, R, R[g].up)
AllocG(N, R, g) ==
    LET S == FixAbove(N, R, g)
        base == R[g].fx \cup (IF R[g].up = "" THEN SureRoots(N) ELSE {})
        need == Sufficient(N, base, S) \ S
        all == S \cup need
        want == Sufficient(N, R[g].fl, all) \ all
        sure == {x \in want : ~Random(N, x, all)}
    IN [f |-> need \cup sure, l |-> want \ sure]
Fix(N, R, g) == AllocG(N, R, g).f
Start(N, R) == [g \in DOMAIN R |-> AllocG(N, R, g)]
Used == UNION {A[g].f \cup A[g].l : g \in DOMAIN T}

Init == /\ D \in GoodNets /\ T \in UNION {Trees(s) : s \in Shapes}
        /\ ~Refused(D, T) /\ Consistent(D, T)
        /\ A = Start(D, T) /\ loose = V0 \ Used
HasParents(x, g) == D[x].par \subseteq HereAt(T, A, g)
CanPlace(x, g) == /\ x \in loose /\ x \notin HereAt(T, A, g) /\ HasParents(x, g)
                  /\ \A h \in AboveG(T, g) : ~HasParents(x, h)
Place(x, g) ==
    /\ CanPlace(x, g)
    /\ A' = [A EXCEPT ![g] = IF D[x].par \subseteq FixedAt(T, A, g) /\ D[x].kind # "Distribution"
                             THEN [f |-> @.f \cup {x}, l |-> @.l] ELSE [f |-> @.f, l |-> @.l \cup {x}]]
    /\ UNCHANGED <<D, T, loose>>
Next == \E x \in V0, g \in DOMAIN T : Place(x, g)

Placed == ~\E x \in V0, g \in DOMAIN T : CanPlace(x, g)
Satisfiable == Placed => AllocRight(D, T, A)
\* a core can be generated in every group: its fixed variables can be computed one after the other
CoresComplete == \A g \in DOMAIN T : \A S \in SUBSET A[g].f :
    S # A[g].f => \E x \in A[g].f \ S : D[x].par \subseteq S \cup UNION {A[h].f : h \in AboveG(T, g)}
\* everything a sampler needs is fixed at or above its group, or drawn on the way
Reachable == \A g \in DOMAIN T : \A x \in A[g].l :
    LET W == Sufficient(D, {x}, FixedAt(T, A, g)) \ FixedAt(T, A, g) IN \A y \in W : D[y].kind \notin {"ExoValue"}
=============================================================================
