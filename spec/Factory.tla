------------------------------ MODULE Factory ------------------------------
(***************************************************************************)
(* Calls of distributions (or other products) and how they are completed;  *)
(* workshops of creators.  Anchors: factory/craftstation.py, prob.py.      *)
(***************************************************************************)
EXTENDS Expr, Graphs

\* declared parameters <<name, default, constraint>> in declaration order
Schema == [
  k        |-> << <<"k", <<0,1>>, "any">> >>,
  gamma    |-> << <<"shape", <<1,1>>, "pos">>, <<"rate", <<1,1>>, "pos">> >>,
  exp      |-> << <<"rate", <<1,1>>, "pos">> >>,
  lnorm    |-> << <<"meanlog", <<0,1>>, "nonneg">>, <<"sdlog", <<1,1>>, "pos">> >>,
  unif     |-> << <<"min", <<0,1>>, "any">>, <<"max", <<1,1>>, "any">> >>,
  chisq    |-> << <<"df", <<1,1>>, "pos">> >>,
  beta     |-> << <<"shape1", <<1,1>>, "pos">>, <<"shape2", <<1,1>>, "pos">> >>,
  invgamma |-> << <<"a", <<2,1>>, "gt2">>, <<"rate", <<1,1>>, "pos">> >>,
  norm     |-> << <<"mean", <<0,1>>, "any">>, <<"sd", <<1,1>>, "pos">> >>,
  triangle |-> << <<"a", <<0,1>>, "any">>, <<"m", <<1,2>>, "any">>, <<"b", <<1,1>>, "any">> >>,
  binom    |-> << <<"size", <<1,1>>, "posint">>, <<"prob", <<1,2>>, "prob">> >>,
  pois     |-> << <<"lam", <<1,1>>, "pos">> >>,
  \* creators registered by the harness
  hthree   |-> << <<"a", <<1,1>>, "any">>, <<"b", <<2,1>>, "any">>, <<"c", <<3,1>>, "any">> >>,
  hmix     |-> << <<"rate", <<5,1>>, "any">>, <<"a", <<7,2>>, "any">>, <<"x", <<0,1>>, "any">>, <<"k", <<9,1>>, "any">> >>,
  hnone    |-> <<>> ]

Params(f) == {Schema[f][i][1] : i \in DOMAIN Schema[f]}
IdxOf(f, p) == CHOOSE i \in DOMAIN Schema[f] : Schema[f][i][1] = p
Q(r) == IF r[2] = 1 THEN [op |-> "num", v |-> r[1], n |-> "", a |-> <<>>]
        ELSE [op |-> "call:ratio", v |-> 0, n |-> "", a |->
                <<[op |-> "num", v |-> r[1], n |-> "", a |-> <<>>], [op |-> "num", v |-> r[2], n |-> "", a |-> <<>>]>>]

\* which argument a parameter gets: <<"named", i>>, <<"pos", i>> or <<"default", 0>>.
\* pos: number of positional arguments, named: sequence of names
Unnamed(f, named) == SelectSeq([i \in DOMAIN Schema[f] |-> Schema[f][i][1]], LAMBDA p : p \notin RangeOf(named))
Source(f, pos, named, p) ==
    IF p \in RangeOf(named) THEN <<"named", CHOOSE i \in DOMAIN named : named[i] = p>>
    ELSE LET j == CHOOSE i \in DOMAIN Unnamed(f, named) : Unnamed(f, named)[i] = p
         IN IF j <= pos THEN <<"pos", j>> ELSE <<"default", 0>>
Fits(f, pos, named) == /\ f \in DOMAIN Schema /\ Distinct(named) /\ RangeOf(named) \subseteq Params(f)
                       /\ pos <= Cardinality(Params(f)) - Len(named)
\* completed expression of a parameter, from the argument expressions
Completed(f, posE, namedN, namedE, p) ==
    LET s == Source(f, Len(posE), namedN, p)
    IN CASE s[1] = "named" -> namedE[s[2]] [] s[1] = "pos" -> posE[s[2]] [] OTHER -> Q(Schema[f][IdxOf(f, p)][2])

Ok(c, v) == CASE c = "pos" -> v[1] > 0 [] c = "nonneg" -> v[1] >= 0 [] c = "gt2" -> Lt(<<2, 1>>, v)
              [] c = "posint" -> v[2] = 1 /\ v[1] > 0 [] c = "prob" -> v[1] >= 0 /\ Le(v, <<1, 1>>) [] OTHER -> TRUE
\* vals: parameter -> rational
Valid(f, vals) == /\ \A p \in Params(f) : Def(vals[p]) /\ Ok(Schema[f][IdxOf(f, p)][3], vals[p])
                  /\ f = "triangle" => \E p \in Params(f) : vals[p] # vals["a"]

-----------------------------------------------------------------------------
\* C27: workshops.  W: workshop name -> [creator name -> creator id]
Get(W, w) == [x \in DOMAIN W \cup {w} |-> IF x \in DOMAIN W THEN W[x] ELSE <<>>]
Register(W, w, c, id) == LET V == Get(W, w) IN
    [V EXCEPT ![w] = [x \in DOMAIN V[w] \cup {c} |-> IF x = c THEN id ELSE V[w][x]]]
=============================================================================
