------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Allocation of the variables of a network to a tree of groups (C12).     *)
(* Anchors: simulation/nodeset.py, bayesnet/dag.py.                        *)
(*                                                                         *)
(* T: group -> [up, fx, fl]: the group above ("" for the root), variables  *)
(*    declared fixed and floating.                                         *)
(* A: group -> [f, l]: variables fixed and floating in it.                 *)
(***************************************************************************)
EXTENDS Sampling

RECURSIVE AboveG(_, _)
AboveG(T, g) == IF T[g].up = "" THEN {} ELSE {T[g].up} \cup AboveG(T, T[g].up)
PathG(T, g) == {g} \cup AboveG(T, g)
BelowG(T, g) == {h \in DOMAIN T : g \in AboveG(T, h)}
RootG(T) == CHOOSE g \in DOMAIN T : T[g].up = ""
KidsG(T, g) == {h \in DOMAIN T : T[h].up = g}

Stochastic(D) == {x \in DOMAIN D : D[x].kind = "Distribution"}
SureRoots(D) == {x \in DOMAIN D : D[x].kind \in {"Value", "ExoValue"}}
\* x still depends on chance when the variables in S are known
Random(D, x, S) == x \notin S /\ (Sufficient(D, {x}, S) \ S) \cap Stochastic(D) # {}

Declared(T) == UNION {T[g].fx \cup T[g].fl : g \in DOMAIN T}
\* refused: a floating variable above a fixed one of the same group
Refused(D, T) == \E g \in DOMAIN T : \E x \in T[g].fl \ T[g].fx : T[g].fx \cap Descendants(EdgesOf(D), x) # {}
\* declarations with one reading
Consistent(D, T) ==
    /\ \A g \in DOMAIN T : T[g].fx \cap T[g].fl = {}
    /\ \A g \in DOMAIN T : \A h \in BelowG(T, g) :
         /\ T[g].fx \cap (T[h].fx \cup T[h].fl) = {}
         /\ \A x \in T[g].fx : Ancestors(EdgesOf(D), x) \cap (T[h].fx \cup T[h].fl) = {}
    /\ \A g \in DOMAIN T \ {RootG(T)} : T[g].fl \cap SureRoots(D) = {}
    /\ T[RootG(T)].fl \cap ExoOf(D) = {}
    /\ \A g \in DOMAIN T \ {RootG(T)} : T[g].fx \cap ExoOf(D) = {}

FixedAt(T, A, g) == UNION {A[h].f : h \in PathG(T, g)}
HereAt(T, A, g) == UNION {A[h].f \cup A[h].l : h \in PathG(T, g)}

\* ---- the conditions
FixedWhereDeclared(D, T, A) == \A g \in DOMAIN T : T[g].fx \subseteq FixedAt(T, A, g)
StandsOnFixed(D, T, A) == \A g \in DOMAIN T : \A x \in A[g].f : D[x].par \subseteq FixedAt(T, A, g)
FixedOnce(D, T, A) == \A g \in DOMAIN T : \A h \in AboveG(T, g) : A[g].f \cap A[h].f \subseteq (T[g].fx \cup T[g].fl) \ Stochastic(D)
FloatsUnlessSure(D, T, A) == \A g \in DOMAIN T : \A x \in T[g].fl :
    IF Random(D, x, FixedAt(T, A, g)) THEN x \in A[g].l \/ (\E h \in AboveG(T, g) : x \in A[h].l) ELSE x \in FixedAt(T, A, g)
NeverBoth(D, T, A) == \A g \in DOMAIN T : A[g].f \cap A[g].l = {}
Found(D, T, A) == \A g \in DOMAIN T :
    /\ \A x \in A[g].f \cup A[g].l : D[x].par \subseteq HereAt(T, A, g)
    /\ A[g].f \cup A[g].l \subseteq DOMAIN D
\* chance is settled only where it was asked for
ChanceKept(D, T, A) == \A g \in DOMAIN T : A[g].f \cap Stochastic(D) \subseteq Bwd(EdgesOf(D), T[g].fx)
\* variables which no declaration involves are offered wherever their parents are
Uninvolved(D, T) == DOMAIN D \ Bwd(EdgesOf(D), Declared(T))
Offered(D, T, A) == \A g \in DOMAIN T : \A x \in Uninvolved(D, T) :
    D[x].par \subseteq HereAt(T, A, g) => x \in HereAt(T, A, g)
NobodyLost(D, T, A) == \A x \in DOMAIN D : x \in Declared(T) \/ D[x].par = {} \/ (\E g \in DOMAIN T : D[x].par \subseteq HereAt(T, A, g))
    => \E g \in DOMAIN T : x \in A[g].f \cup A[g].l

AllocRight(D, T, A) ==
    /\ FixedWhereDeclared(D, T, A) /\ StandsOnFixed(D, T, A) /\ FixedOnce(D, T, A) /\ FloatsUnlessSure(D, T, A)
    /\ NeverBoth(D, T, A) /\ Found(D, T, A) /\ ChanceKept(D, T, A) /\ Offered(D, T, A) /\ NobodyLost(D, T, A)

\* a core of group g offers samplers of the variables floating in it, and maybe of those floating below it
SamplersMost(T, A, g) == A[g].l \cup UNION {A[h].l : h \in BelowG(T, g)}
\* what a group needs from above
NeedsAt(D, A, g) == (UNION {D[x].par : x \in A[g].f}) \ A[g].f
ListensAt(D, A, g) == ((UNION {D[x].par : x \in A[g].l}) \ A[g].f) \ A[g].l
\* free parameters of a simulation core: the random variables with nothing random above them which its own cores hold
FreeAt(D, A, g) == {x \in Stochastic(D) : Ancestors(EdgesOf(D), x) \cap Stochastic(D) = {}} \cap A[g].f
\* variables on which chance has no influence
Sure(D) == {x \in DOMAIN D : Bwd(EdgesOf(D), {x}) \cap Stochastic(D) = {}}
=============================================================================
