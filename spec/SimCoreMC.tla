----------------------------- MODULE SimCoreMC -----------------------------
(***************************************************************************)
(* Stage M for C13-C16: cores are generated, bred, intervened on, detached *)
(* and cloned.  Values are serial numbers; hist remembers from which       *)
(* values of the parents each was made.  Invariant: all values visible in  *)
(* a core agree with each other.                                           *)
(***************************************************************************)
EXTENDS SimCore
CONSTANTS V0, Ups, MaxCores, MaxActs, Mode
VARIABLES D, T, A, C, hist, acts, last

Chain2 == [r |-> "", s |-> "r"]
Chain3 == [r |-> "", s |-> "r", t |-> "s"]
Fork == [r |-> "", s |-> "r", t |-> "r"]

Pairs == {e \in V0 \X V0 : e[1] # e[2]}
Dags == {F \in SUBSET Pairs : Acyclic(V0, F)}
\* every variable is declared exactly once in the tree: fixed, or floating
Places == [V0 -> [g : DOMAIN Ups, f : BOOLEAN]]
TreeFor(p) == [g \in DOMAIN Ups |-> [up |-> Ups[g], fx |-> {x \in V0 : p[x].g = g /\ p[x].f}, fl |-> {x \in V0 : p[x].g = g /\ ~p[x].f}]]
AsAlloc(R) == [g \in DOMAIN R |-> [f |-> R[g].fx, l |-> R[g].fl]]

Init == /\ \E E \in Dags, p \in Places :
             /\ D = [n \in V0 |-> [kind |-> "Distribution", par |-> Pre(E, n), c |-> 0]]
             /\ T = TreeFor(p) /\ A = AsAlloc(TreeFor(p))
        /\ ~Refused(D, T) /\ Consistent(D, T) /\ AllocRight(D, T, A)
        /\ C = <<>> /\ hist = <<>> /\ acts = 0 /\ last = [op |-> "none"]

\* evaluate the variables in S one after the other; returns values and log
RECURSIVE Eval(_, _, _, _)
Eval(S, view, log, next) ==
    IF S = {} THEN [v |-> view, log |-> log, next |-> next]
    ELSE LET x == CHOOSE y \in S : Ancestors(EdgesOf(D), y) \cap S = {}
             e == [x |-> x, v |-> next, pas |-> [p \in D[x].par |-> view[p]]]
         IN Eval(S \ {x}, Over([y \in {x} |-> next], view), Append(log, e), next + 1)
Next1 == Len(hist) + 1
Only(f, S) == [x \in S |-> f[x]]
NewId == Cardinality(DOMAIN C) + 1
Added(i, c) == [k \in DOMAIN C \cup {i} |-> IF k = i THEN c ELSE C[k]]
Imposed == -1

Make(g, up, given) ==
    LET uv == UpView(C, up)
        r == Eval(A[g].f \ DOMAIN given, Over(given, uv), <<>>, Next1)
        i == NewId
        own == Only(r.v, A[g].f \cup DOMAIN given)
        C1 == Added(i, [g |-> g, nick |-> ToString(i), up |-> up, own |-> own, lp |-> <<"none", 0>>, kids |-> <<>>])
    IN /\ GivenFits(D, A[g].f, uv, given)
       /\ C' = IF up = 0 THEN C1 ELSE [C1 EXCEPT ![up].kids = Over([n \in {ToString(i)} |-> i], @)]
       /\ hist' = hist \o r.log
       /\ last' = [op |-> "new", i |-> i, up |-> up, given |-> given, log |-> r.log, C |-> C]
GivenSets(g) == {[x \in S |-> Imposed] : S \in SUBSET A[g].f}
Generate == \E given \in GivenSets(RootG(T)) : Make(RootG(T), 0, given)
Breed == \E p \in DOMAIN C, g \in DOMAIN T : T[g].up = C[p].g /\ \E given \in GivenSets(g) : Make(g, p, given)

\* an intervention works down the tree, core by core
RECURSIVE Work(_, _, _, _, _)
Work(CC, todo, set, redraw, log) ==
    IF todo = {} THEN [C |-> CC, log |-> log]
    ELSE LET k == CHOOSE j \in todo : CC[j].up \notin todo
             F == A[CC[k].g].f
             C1 == [CC EXCEPT ![k].own = [x \in DOMAIN @ |-> IF x \in F \cap DOMAIN set THEN set[x] ELSE @[x]]]
             r == Eval(ShockedIn(D, A, CC, k, set, redraw), View(C1, k), <<>>, Next1 + Len(log))
             C2 == [C1 EXCEPT ![k].own = Only(r.v, DOMAIN @)]
         IN Work(C2, todo \ {k}, set, redraw, log \o r.log)
Intervene == \E i \in DOMAIN C : \E S \in SUBSET V0 : \E R \in SUBSET (V0 \ S) :
    LET set == [x \in S |-> Imposed]
        w == Work(C, Sub(C, i), set, R, <<>>) IN
    /\ S \cup R # {} /\ CanIntervene(D, A, C, i, set, R)
    /\ C' = w.C /\ hist' = hist \o w.log
    /\ last' = [op |-> "impulse", i |-> i, set |-> set, redraw |-> R, log |-> w.log, C |-> C]
Detach == \E i \in DOMAIN C : /\ C[i].up # 0 /\ C' = Detached(C, i, TRUE) /\ UNCHANGED hist
                              /\ last' = [op |-> "detach", i |-> i, C |-> C]
Clone == \E i \in DOMAIN C : /\ C[i].up = 0
    /\ LET subs == Sub(C, i)
           m == [k \in subs |-> Cardinality(DOMAIN C) + Cardinality({j \in subs : j <= k})]
       IN /\ C' = [k \in DOMAIN C \cup {m[a] : a \in subs} |->
                     IF k \in DOMAIN C THEN C[k]
                     ELSE LET a == CHOOSE b \in subs : m[b] = k IN
                          [C[a] EXCEPT !.up = IF a = i THEN 0 ELSE m[@], !.kids = [n \in DOMAIN @ |-> m[@[n]]]]]
          /\ last' = [op |-> "clone", i |-> i, m |-> m, C |-> C]
    /\ UNCHANGED hist
Next == /\ acts < MaxActs /\ acts' = acts + 1 /\ UNCHANGED <<D, T, A>>
        /\ \/ Cardinality(DOMAIN C) < MaxCores /\ (Generate \/ Breed)
           \/ Intervene
           \/ Mode = "all" /\ Cardinality(DOMAIN C) * 2 <= MaxCores /\ Clone
           \/ Mode = "all" /\ Detach

Serial(v) == v # Imposed
AgreeAll == \A i \in DOMAIN C : LET w == View(C, i) IN
    \A x \in DOMAIN w : Serial(w[x]) => hist[w[x]].x = x /\ hist[w[x]].pas = Only(w, D[x].par)
Complete == \A i \in DOMAIN C : A[C[i].g].f \subseteq DOMAIN C[i].own
Links == \A i \in DOMAIN C : /\ \A n \in DOMAIN C[i].kids : C[C[i].kids[n]].up = i
                             /\ C[i].up # 0 => T[C[i].g].up = C[C[i].up].g /\ i \in Sub(C, C[i].up)
\* the constructions satisfy the conditions of the trace check
StepRight ==
    CASE last.op = "none" -> TRUE
      [] last.op = "new" -> /\ NewRight(D, A[C[last.i].g].f, UpView(last.C, last.up), last.given, last.log, C[last.i].own)
                            /\ Others(last.C, C, {last.up})
      [] last.op = "impulse" -> /\ InterveneRight(D, A, last.C, C, last.i, last.set, last.redraw, last.log)
                                /\ Others(last.C, C, Sub(C, last.i)) /\ SamePlace(last.C, C, DOMAIN C)
      [] last.op = "detach" -> View(C, last.i) = View(last.C, last.i)
      [] last.op = "clone" -> CloneRight(last.C, C, last.i, last.m, TRUE)
=============================================================================
