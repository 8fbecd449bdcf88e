----------------------------- MODULE DataModel -----------------------------
(***************************************************************************)
(* Data models, their parameter sets and their particles (C18, C23).       *)
(* Anchors: fit/base.py, fit/results.py.                                   *)
(*                                                                         *)
(* A model is a network D (functions add their parents up), the fixed      *)
(* exogenous values X, the names K of its data and for each a weight W[k]: *)
(* the distance of a simulated value y to k is W[k] * y.                   *)
(* A particle is [pars, lp, sims, xs, ys, dist, lik, notes]; xs, ys, dist  *)
(* and lik are sets: empty, or holding the one remembered value.           *)
(***************************************************************************)
EXTENDS Sampling

\* values that do not depend on chance
RECURSIVE Sure(_, _, _)
Sure(D, X, x) == IF x \in DOMAIN X THEN X[x]
                 ELSE IF D[x].kind = "Value" THEN D[x].c
                 ELSE LET p == [y \in D[x].par |-> Sure(D, X, y)] IN SumOf(p, D[x].par)
RvOf(D) == {x \in DOMAIN D : D[x].kind = "Distribution"}
RvRoots(D) == {x \in RvOf(D) : Ancestors(EdgesOf(D), x) \cap RvOf(D) = {}}

\* a domain entry of the harness distribution
DomainOf(D, X, x) == LET p == [y \in D[x].par |-> Sure(D, X, y)]  s == SumOf(p, D[x].par) IN
    [lo |-> -1 - (s % 7), up |-> 10 + (s % 5), loc |-> s % 11, sc |-> 1 + (s % 13)]
FreeOf(D, X, floats) == {x \in RvRoots(D) \ DOMAIN X : x \in floats}

\* a parameter set: given values kept, constants and functions right, draws logged with their parents' values
ParsRight(D, given, log, pars) ==
    /\ DOMAIN pars = DOMAIN D \cup DOMAIN given
    /\ Agree(pars, given, DOMAIN given)
    /\ \A x \in DOMAIN D \ DOMAIN given :
         CASE D[x].kind = "Value" -> pars[x] = D[x].c
           [] D[x].kind = "Function" -> pars[x] = SumOf(pars, D[x].par)
           [] D[x].kind = "Distribution" ->
                \E i \in DOMAIN log : /\ log[i].x = x /\ log[i].v = pars[x]
                                      /\ log[i].pas = [y \in D[x].par |-> pars[y]]
           [] OTHER -> FALSE
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

\* particles
Fresh(pars, lp, sims) == [pars |-> pars, lp |-> lp, sims |-> sims, xs |-> {}, ys |-> {}, dist |-> {}, lik |-> {}, notes |-> <<>>]
Flat(p, K, dom) == [p EXCEPT !.xs = {[i \in DOMAIN dom |-> p.pars[dom[i]]]}, !.ys = {[k \in K |-> p.sims[k]]}]
Flattened(p, K, dom) == IF p.ys = {} THEN Flat(p, K, dom) ELSE p
The(S) == CHOOSE x \in S : TRUE
Total(W, ys) == SumOf([k \in DOMAIN ys |-> W[k] * ys[k]], DOMAIN ys)
Distance(p, K, W, dom) == IF p.dist # {} THEN p ELSE LET q == Flattened(p, K, dom) IN [q EXCEPT !.dist = {Total(W, The(q.ys))}]
Likelihood(p, K, W, dom) == IF p.lik # {} THEN p ELSE LET q == Flattened(p, K, dom) IN [q EXCEPT !.lik = {-2 * Total(W, The(q.ys))}]
CopyOf(p) == [p EXCEPT !.dist = {}, !.lik = {}, !.notes = <<>>]
SetPar(p, k, v) == [p EXCEPT !.pars = Over(@, (k :> v)), !.lp = <<"none", 0>>]
SetNote(p, k, v) == [p EXCEPT !.notes = Over(@, (k :> v))]
\* targets evaluated by an operation
Asked(p, K, kind) == IF (IF kind = "dist" THEN p.dist ELSE p.lik) = {} THEN K ELSE {}
=============================================================================
