---------------------------- MODULE DataModelMC ----------------------------
(***************************************************************************)
(* Stage M and G for C18 and C23: the life of particles and of a set of    *)
(* particles.  The histories h are printed for the replay.                 *)
(***************************************************************************)
EXTENDS DataModel, Json
CONSTANTS Steps, Emitting
VARIABLES P, S, h, P0

K == {"y", "z"}
W == ("y" :> 2) @@ ("z" :> 3)
Dom == <<"a", "b">>
New(i) == Fresh(("a" :> i) @@ ("b" :> 5), <<"fin", -i>>, ("y" :> i) @@ ("z" :> 1) @@ ("w" :> 9))
Ids == {1, 2}
Moves == [op : {"flatten", "dist", "lik"}, id : Ids, src : {0}]
   \cup [op : {"copy", "json"}, id : Ids, src : Ids]
   \cup [op : {"set", "note", "add"}, id : Ids, src : {0}]
After(m) == CASE m.op = "flatten" -> Flat(P[m.id], K, Dom)
              [] m.op = "dist" -> Distance(P[m.id], K, W, Dom)
              [] m.op = "lik" -> Likelihood(P[m.id], K, W, Dom)
              [] m.op = "copy" -> CopyOf(P[m.src])
              [] m.op = "json" -> P[m.src]
              [] m.op = "set" -> SetPar(P[m.id], "a", Len(h) + 10)
              [] m.op = "note" -> SetNote(P[m.id], "n", Len(h))
              [] OTHER -> P[m.id]
Init == P = [i \in Ids |-> New(i)] /\ S = <<>> /\ h = <<>> /\ P0 = P
Next == /\ Len(h) < Steps
        /\ \E m \in Moves : /\ P' = [P EXCEPT ![m.id] = After(m)]
                            /\ S' = IF m.op = "add" THEN Append(S, m.id) ELSE S
                            /\ h' = Append(h, m)
        /\ P0' = P
Emit == Emitting /\ Len(h) = Steps => PrintT(<<"H", ToJson(h)>>)

\* what is remembered is right for the simulated output, whatever happened
Remembered == \A i \in Ids :
    /\ P[i].dist # {} => P[i].dist = {SumOf([k \in K |-> W[k] * P[i].sims[k]], K)}
    /\ P[i].lik # {} => P[i].lik = {-2 * SumOf([k \in K |-> W[k] * P[i].sims[k]], K)}
    /\ P[i].ys # {} => P[i].ys = {[k \in K |-> P[i].sims[k]]}
    /\ (P[i].dist # {} \/ P[i].lik # {}) => P[i].ys # {} /\ P[i].xs # {}
SimsNever == \A i \in Ids : \E j \in Ids : P[i].sims = New(j).sims
OnlyOne == h # <<>> => \A i \in Ids : i # h[Len(h)].id => P[i] = P0[i]
LpRight == \A i \in Ids : P[i].lp = <<"none", 0>> \/ \E j \in Ids : P[i].pars = New(j).pars /\ P[i].lp = New(j).lp
=============================================================================
