------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Sampling a network, the log-probability of an assignment, and           *)
(* interventions on chromosomes.  Anchors: fn.py, bayesnet/chromosome.py.  *)
(*                                                                         *)
(* D: variable -> [kind, par, c] with kind in Value, ExoValue, Function,   *)
(* Distribution; c is the constant of a Value.  Values are integers.  A    *)
(* recorded evaluation is [x |-> variable, v |-> value made, pas |-> the   *)
(* parents' values it was given].  Every evaluation makes a new value.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Graphs

EdgesOf(D) == UNION {{<<p, n>> : p \in D[n].par} : n \in DOMAIN D}
Outside(E, G) == {e \in E : e[2] \notin G}
Sufficient(D, S, G) == Bwd(Outside(EdgesOf(D), G), S)
ExoOf(D) == {n \in DOMAIN D : D[n].kind = "ExoValue"}
Calc(D) == {n \in DOMAIN D : D[n].kind \in {"Function", "Distribution"}}
Consts(D) == {n \in DOMAIN D : D[n].kind = "Value"}
Agree(f, g, S) == \A x \in S : x \in DOMAIN f /\ x \in DOMAIN g /\ f[x] = g[x]

\* exactly the variables in S are evaluated, each once, giving the value in res from the values in res
EvaluatedFrom(D, log, S, res) ==
    /\ Len(log) = Cardinality(S)
    /\ {log[i].x : i \in DOMAIN log} = S
    /\ \A i \in DOMAIN log :
         LET x == log[i].x IN
         /\ x \in DOMAIN res /\ res[x] = log[i].v
         /\ DOMAIN log[i].pas = D[x].par
         /\ \A p \in D[x].par : p \in DOMAIN res /\ log[i].pas[p] = res[p]

\* C08
CanSample(D, given) == ExoOf(D) \subseteq DOMAIN given
SampleRight(D, given, log, res) ==
    /\ DOMAIN res = DOMAIN D \cup DOMAIN given
    /\ Agree(res, given, DOMAIN given)
    /\ \A x \in Consts(D) \ DOMAIN given : res[x] = D[x].c
    /\ EvaluatedFrom(D, log, Calc(D) \ DOMAIN given, res)

\* C09
Needed(D, S, given) == Sufficient(D, S, DOMAIN given)
CanMinimal(D, S, given) == Needed(D, S, given) \cap ExoOf(D) \subseteq DOMAIN given
MinimalRight(D, S, given, log, sinks, med) ==
    LET W == Needed(D, S, given) \cup DOMAIN given
        res == [x \in DOMAIN sinks \cup DOMAIN med |-> IF x \in DOMAIN sinks THEN sinks[x] ELSE med[x]] IN
    /\ DOMAIN sinks = S /\ DOMAIN med = W \ S
    /\ Agree(res, given, DOMAIN given)
    /\ \A x \in (Consts(D) \cap W) \ DOMAIN given : res[x] = D[x].c
    /\ EvaluatedFrom(D, log, (Calc(D) \cap W) \ DOMAIN given, res)

\* C10: the harness distribution.  A density is <<"fin", n>> or <<"inf", 0>> (minus infinity)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Density(D, x, vals, strict) ==
    LET s == SumOf(vals, D[x].par)  v == vals[x] IN
    IF strict /\ D[x].par # {} /\ (s % 29) = 0 THEN <<"inf", 0>>           \* cannot exist for these parents
    ELSE IF ((v + s) % 31) = 0 THEN <<"inf", 0>>                 \* impossible value
    ELSE IF (v % 37) = 0 THEN <<"inf", 0>>                       \* density not a number
    ELSE <<"fin", (IF ((v + s) % 23) = 0 THEN -20000001 ELSE 4) - ((v + 3 * s) % 10)>>
RandomIn(D, vals) == {x \in DOMAIN D \cap DOMAIN vals : D[x].kind = "Distribution"}
LogProbOf(D, vals, strict) ==
    LET R == RandomIn(D, vals)  d == [x \in R |-> Density(D, x, vals, strict)] IN
    IF \E x \in R : d[x][1] = "inf" THEN <<"inf", 0>>
    ELSE <<"fin", SumOf([x \in R |-> d[x][2]], R)>>
LogProb(D, vals) == LogProbOf(D, vals, TRUE)
Evaluable(D, vals) == \A x \in RandomIn(D, vals) : D[x].par \subseteq DOMAIN vals

\* C11: chromosome [vals, lp] with lp in {<<"none", 0>>} \cup densities
Shocked(D, vals, set, redraw) ==
    LET held == DOMAIN vals
        I == (DOMAIN set \cup redraw) \cap held
    IN ((UNION {Descendants(EdgesOf(D), x) : x \in I \cap DOMAIN D} \ DOMAIN set) \cup (redraw \cap held)) \cap held
CanImpulse(D, vals, set, redraw) ==
    \A x \in Shocked(D, vals, set, redraw) \cap Calc(D) : D[x].par \subseteq DOMAIN vals
ImpulseRight(D, vals, set, redraw, log, new) ==
    LET S == Shocked(D, vals, set, redraw) IN
    /\ DOMAIN new = DOMAIN vals
    /\ Agree(new, set, DOMAIN set \cap DOMAIN vals)
    /\ Agree(new, vals, (DOMAIN vals \ S) \ DOMAIN set)
    /\ \A x \in S \cap Consts(D) : new[x] = D[x].c
    /\ \A x \in S \cap ExoOf(D) : new[x] = vals[x]
    /\ EvaluatedFrom(D, log, S \cap Calc(D), new)
CacheRight(D, vals, lp) == lp[1] = "none" \/ (Evaluable(D, vals) /\ lp = LogProb(D, vals))
=============================================================================
