------------------------------ MODULE TablesMC ------------------------------
(***************************************************************************)
(* Stage M for C29 (tables): histories of conditioning and marginalising   *)
(* sparse tables obey the laws of probability.  Stage G: the histories are *)
(* printed and replayed on the code.                                       *)
(***************************************************************************)
EXTENDS Tables, Json
CONSTANTS MaxRows, MaxOps, Weights
Names == {"a", "b", "c"}
Labels == {"u", "v"}
Keys == [Names -> Labels]
VARIABLES T0, T, hist
vars == <<T0, T, hist>>

Init == \E K \in SUBSET Keys : /\ Cardinality(K) \in 1..MaxRows
          /\ \E w \in [K -> Weights] : /\ T0 = [ix |-> Names, w |-> w]
                                       /\ Usable(T0)
          /\ T = T0
          /\ hist = <<>>
Cond == \E x \in T.ix : \E l \in Labels :
          LET U == Condition(T, [y \in {x} |-> l]) IN
          /\ Usable(U)
          /\ T' = U
          /\ hist' = Append(hist, <<"condition", x, l>>)
Marg == \E x \in T.ix : /\ Cardinality(T.ix) > 1
          /\ T' = Marginalise(T, x)
          /\ hist' = Append(hist, <<"marginalise", x, "">>)
Next == /\ Len(hist) < MaxOps
        /\ Cond \/ Marg
        /\ UNCHANGED T0

Removed == {hist[i][2] : i \in DOMAIN hist}
Given == LET C == {i \in DOMAIN hist : hist[i][1] = "condition"}
         IN [x \in {hist[i][2] : i \in C} |-> hist[CHOOSE i \in C : hist[i][2] = x][3]]
\* whatever the order of the steps: the rows agreeing with the conditions, added up over the rest
OrderFree == /\ T.ix = Names \ Removed
             /\ \A k \in DOMAIN T.w : T.w[k] = SumW(T0.w, {q \in DOMAIN T0.w : Agrees(q, Given) /\ On(q, T.ix) = k})
             /\ DOMAIN T.w = {On(q, T.ix) : q \in {p \in DOMAIN T0.w : Agrees(p, Given)}}
MassKept == (\A i \in DOMAIN hist : hist[i][1] = "marginalise") => Total(T) = Total(T0)
\* law of total probability: conditions on one index split the mass
Splits == \A x \in T.ix : Total(T) = SumW([l \in Labels |-> Total(Condition(T, [y \in {x} |-> l]))], Labels)
DrawsFromSource == \A k \in Drawable(T) : \E q \in Drawable(T0) : Agrees(q, Given) /\ On(q, T.ix) = k
Emit == (Len(hist) = MaxOps \/ ~ENABLED Next) => PrintT(<<"W", ToJson([rows |-> {<<k["a"], k["b"], k["c"], T0.w[k]>> : k \in DOMAIN T0.w}, ops |-> hist])>>)
=============================================================================
