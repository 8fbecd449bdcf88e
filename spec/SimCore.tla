------------------------------ MODULE SimCore ------------------------------
(***************************************************************************)
(* Trees of parameter cores: generating, breeding, sampling, interventions,*)
(* cloning and detaching (C13-C16).                                        *)
(* Anchors: simulation/parcore.py, simugroup.py, simucore.py, actor.py.    *)
(*                                                                         *)
(* D: network, A: allocation (Alloc.tla).  C: id -> [g, nick, up, own, lp, *)
(* kids]: group, nickname, id of the core above (0: none), values held,    *)
(* log-probability, nickname -> id of the registered cores below.          *)
(***************************************************************************)
EXTENDS Alloc

Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
RECURSIVE View(_, _)
View(C, i) == IF C[i].up = 0 THEN C[i].own ELSE Over(C[i].own, View(C, C[i].up))
UpView(C, i) == IF i = 0 THEN <<>> ELSE View(C, i)
RECURSIVE Sub(_, _)
Sub(C, i) == {i} \cup UNION {Sub(C, C[i].kids[n]) : n \in DOMAIN C[i].kids}

\* log-probability of the variables in F with the values in view
ScoreOf(D, F, view) ==
    LET R == F \cap Stochastic(D)  d == [x \in R |-> Density(D, x, view, FALSE)] IN
    IF \E x \in R : d[x][1] = "inf" THEN <<"inf", 0>> ELSE <<"fin", SumOf([x \in R |-> d[x][2]], R)>>
Score(D, A, C, i) == ScoreOf(D, A[C[i].g].f, View(C, i))

\* ---- C13: a new core of group g under the values upview
NewRight(D, F, upview, given, log, own) ==
    /\ DOMAIN own = F \cup DOMAIN given
    /\ Agree(own, given, DOMAIN given)
    /\ \A x \in (F \cap Consts(D)) \ DOMAIN given : own[x] = D[x].c
    /\ EvaluatedFrom(D, log, (F \cap Calc(D)) \ DOMAIN given, Over(own, upview))
\* supplied values that have one reading: variables fixed in this group and not above, or unknown names
GivenFits(D, F, upview, given) ==
    /\ DOMAIN given \cap DOMAIN D \subseteq F \ DOMAIN upview
    /\ F \cap ExoOf(D) \subseteq DOMAIN given
Others(C, C2, S) == \A i \in DOMAIN C \ S : i \in DOMAIN C2 /\ C2[i] = C[i]

\* ---- C14: a draw of x: what is not visible is drawn afresh, once
DrawnFor(D, view, x) == LET vis == DOMAIN view \ {x} IN Sufficient(D, {x}, vis) \ vis
DrawRight(D, view, x, log, v) ==
    LET W == DrawnFor(D, view, x)
        made == [y \in {log[i].x : i \in DOMAIN log} |-> log[CHOOSE i \in DOMAIN log : log[i].x = y].v]
    IN /\ EvaluatedFrom(D, log, W, Over(made, view)) /\ x \in DOMAIN made /\ made[x] = v
DrawsRight(D, view, x, log, vs) ==
    LET k == Cardinality(DrawnFor(D, view, x)) IN
    /\ Len(vs) > 0 /\ Len(log) = k * Len(vs)
    /\ \A i \in DOMAIN vs : DrawRight(D, view, x, SubSeq(log, (i - 1) * k + 1, i * k), vs[i])

\* ---- C15
Targets(set, redraw) == DOMAIN set \cup redraw
CanIntervene(D, A, C, i, set, redraw) ==
    /\ Targets(set, redraw) \subseteq DOMAIN D
    /\ Targets(set, redraw) \cap (DOMAIN View(C, i) \ A[C[i].g].f) = {}
    /\ (C[i].up # 0 => Targets(set, redraw) \cap DOMAIN View(C, C[i].up) = {})
FollowOf(D, set, redraw) == (UNION {Descendants(EdgesOf(D), x) : x \in Targets(set, redraw)} \ DOMAIN set) \cup redraw
ShockedIn(D, A, C, k, set, redraw) == FollowOf(D, set, redraw) \cap A[C[k].g].f
InterveneRight(D, A, C, C2, i, set, redraw, log) ==
    LET subs == Sub(C, i)
        mine(k) == SelectSeq(log, LAMBDA e : e.x \in DOMAIN C2[k].own /\ C2[k].own[e.x] = e.v)
        S(k) == ShockedIn(D, A, C, k, set, redraw)
    IN
    /\ \A k \in subs :
         LET o == C[k].own  n == C2[k].own  F == A[C[k].g].f IN
         /\ DOMAIN n = DOMAIN o
         /\ \A x \in F \cap DOMAIN set : n[x] = set[x]
         /\ \A x \in DOMAIN o \ (S(k) \cup (F \cap DOMAIN set)) : n[x] = o[x]
         /\ \A x \in S(k) \cap Consts(D) : n[x] = D[x].c
         /\ \A x \in S(k) \cap ExoOf(D) : n[x] = o[x]
         /\ EvaluatedFrom(D, mine(k), S(k) \cap Calc(D), View(C2, k))
    /\ Len(log) = SumOf([k \in subs |-> Cardinality(S(k) \cap Calc(D))], subs)
SamePlace(C, C2, S) == \A k \in S : k \in DOMAIN C2 /\ [C2[k] EXCEPT !.own = <<>>, !.lp = <<>>] = [C[k] EXCEPT !.own = <<>>, !.lp = <<>>]
ScoreRight(D, A, C2, k) == C2[k].lp = <<"none", 0>> \/ C2[k].lp = Score(D, A, C2, k)

\* ---- C16: m maps the cores of the old tree to those of the new one
CloneRight(C, C2, i, m, deep) ==
    /\ DOMAIN m = (IF deep THEN Sub(C, i) ELSE {i})
    /\ \A a, b \in DOMAIN m : a # b => m[a] # m[b]
    /\ \A a \in DOMAIN m :
         /\ m[a] \in DOMAIN C2 \ DOMAIN C
         /\ C2[m[a]].g = C[a].g /\ C2[m[a]].nick = C[a].nick /\ C2[m[a]].own = C[a].own /\ C2[m[a]].lp = C[a].lp
         /\ C2[m[a]].up = (IF a = i THEN 0 ELSE m[C[a].up])
         /\ C2[m[a]].kids = (IF deep THEN [n \in DOMAIN C[a].kids |-> m[C[a].kids[n]]] ELSE <<>>)
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Detached(C, i, collect) ==
    [k \in DOMAIN C |->
       IF k = i THEN [C[i] EXCEPT !.up = 0, !.own = IF collect THEN View(C, i) ELSE C[i].own]
       ELSE IF k = C[i].up THEN [C[k] EXCEPT !.kids = Without(@, C[i].nick)] ELSE C[k]]
=============================================================================
