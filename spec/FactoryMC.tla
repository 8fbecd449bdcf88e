----------------------------- MODULE FactoryMC -----------------------------
(* Stage M and G for C06: every way of passing arguments to every schema:   *)
(* which parameters are named, in which order, how many are positional.     *)
EXTENDS Factory, Json, SequencesExt, FiniteSetsExt
VARIABLES f, named, pos
Init == /\ f \in DOMAIN Schema
        /\ named \in UNION {SetToSeqs(S) : S \in SUBSET Params(f)}
        /\ pos \in 0 .. (Cardinality(Params(f)) - Len(named))
Next == UNCHANGED <<f, named, pos>>
Emit == PrintT(<<"A", ToJson([f |-> f, named |-> named, pos |-> pos])>>)

Srcs == [p \in Params(f) |-> Source(f, pos, named, p)]
EachOnce == /\ \A p, q \in Params(f) : p # q /\ Srcs[p][1] # "default" => Srcs[p] # Srcs[q]
            /\ \A i \in DOMAIN named : Srcs[named[i]] = <<"named", i>>
            /\ \A i \in 1 .. pos : \E p \in Params(f) : Srcs[p] = <<"pos", i>>
InOrder == \A p, q \in Params(f) : Srcs[p][1] = "pos" /\ Srcs[q][1] = "pos" /\ Srcs[p][2] < Srcs[q][2] => IdxOf(f, p) < IdxOf(f, q)
DefaultsLast == \A p, q \in Params(f) : Srcs[p][1] = "default" /\ Srcs[q][1] = "pos" => IdxOf(f, q) < IdxOf(f, p)
\* completing the completed call (all named) changes nothing
Idempotent == LET all == [i \in DOMAIN Schema[f] |-> Schema[f][i][1]]
              IN \A p \in Params(f) : Source(f, 0, all, p) = <<"named", IdxOf(f, p)>>
=============================================================================
