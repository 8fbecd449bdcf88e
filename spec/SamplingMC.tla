----------------------------- MODULE SamplingMC -----------------------------
(***************************************************************************)
(* Stage M: sampling and interventions as machines that evaluate one       *)
(* variable at a time, in any order that respects the parents, over every  *)
(* acyclic graph on V0 and every choice of kinds and given variables.      *)
(* A finished run satisfies the declarative conditions used by the trace   *)
(* checks, for every order; and no run gets stuck before that.             *)
(***************************************************************************)
EXTENDS Sampling
CONSTANTS V0, KindsUsed, Mode      \* Mode "full" or "impulse"
VARIABLES D, given, target, redraw, old, vals, log, todo, fresh

Pairs == {e \in V0 \X V0 : e[1] # e[2]}
Dags == {F \in SUBSET Pairs : Acyclic(V0, F)}
Nets == {[n \in V0 |-> [kind |-> k[n], par |-> Pre(E, n), c |-> 5]] : E \in Dags, k \in [V0 -> KindsUsed]}
GoodNets == {N \in Nets : \A n \in V0 : N[n].kind \in {"Value", "ExoValue"} => N[n].par = {}}
Given(S) == [x \in S |-> -1]

InitFull == /\ D \in GoodNets /\ given \in {Given(S) : S \in SUBSET V0} /\ target \in SUBSET V0
            /\ redraw = {} /\ old = <<>>
            /\ vals = given /\ log = <<>> /\ fresh = 100
            /\ todo = IF CanMinimal(D, target, given) THEN Needed(D, target, given) \ DOMAIN given ELSE {}
\* interventions start from a full assignment (values 1, 2, ..)
InitImp == /\ D \in GoodNets /\ given \in {Given(S) : S \in SUBSET V0} /\ redraw \in SUBSET V0
           /\ redraw \cap DOMAIN given = {} /\ target = {}
           /\ \E H \in SUBSET V0 : old = [x \in H |-> 1]
           /\ CanImpulse(D, old, given, redraw)
           /\ vals = [x \in DOMAIN old |-> IF x \in DOMAIN given THEN given[x] ELSE old[x]]
           /\ log = <<>> /\ fresh = 100
           /\ todo = Shocked(D, old, given, redraw)
Init == IF Mode = "full" THEN InitFull ELSE InitImp

\* evaluate x when all its parents that still have to be evaluated are done
Ready(x) == \A p \in Ancestors(EdgesOf(D), x) : p \notin todo
Step == \E x \in todo :
    /\ Ready(x)
    /\ todo' = todo \ {x}
    /\ IF D[x].kind = "Value" THEN vals' = [y \in DOMAIN vals \cup {x} |-> IF y = x THEN D[x].c ELSE vals[y]] /\ UNCHANGED <<log, fresh>>
       ELSE IF D[x].kind = "ExoValue" THEN UNCHANGED <<vals, log, fresh>>
       ELSE /\ vals' = [y \in DOMAIN vals \cup {x} |-> IF y = x THEN fresh ELSE vals[y]]
            /\ log' = Append(log, [x |-> x, v |-> fresh, pas |-> [p \in D[x].par |-> vals[p]]])
            /\ fresh' = fresh + 1
    /\ UNCHANGED <<D, given, target, redraw, old>>
Next == Step

Only(f, S) == [x \in S |-> f[x]]
Progress == todo # {} => \E x \in todo : Ready(x) /\ (D[x].kind \in {"Value", "ExoValue"} \/ D[x].par \subseteq DOMAIN vals)
Done == todo = {} =>
    IF Mode = "full"
    THEN CanMinimal(D, target, given) =>
           /\ MinimalRight(D, target, given, log, Only(vals, target), Only(vals, DOMAIN vals \ target))
           /\ target = V0 => SampleRight(D, given, log, vals) /\ CanSample(D, given)
    ELSE ImpulseRight(D, old, given, redraw, log, vals)
\* sampling everything is minimal sampling of everything
FullIsMinimal == Mode = "full" /\ target = V0 => (CanSample(D, given) <=> CanMinimal(D, target, given))
\* an intervention leaves no held variable behind: what follows from a changed value was made from it
UpToDate == Mode = "impulse" /\ todo = {} =>
    \A x \in DOMAIN vals \cap Calc(D) : x \notin DOMAIN given /\ (Ancestors(EdgesOf(D), x) \cap (DOMAIN given \cup redraw)) \cap DOMAIN old # {}
        => \E i \in DOMAIN log : log[i].x = x
=============================================================================
