------------------------------- MODULE AbcMC -------------------------------
(* Stage M and G for C19: one or two workers, every sequence of distances. *)
EXTENDS Abc, Json
CONSTANTS NTest, NCollect, PN, PK, MaxSims, MaxD, Emitting
P == <<PN, PK>>
VARIABLES phase, dist, eps, post, tried, hist
Ds == {<<"fin", n>> : n \in 0..MaxD} \cup {<<"inf", 1>>, <<"nan", 0>>}
Init == phase = "test" /\ dist = <<>> /\ eps = 0 /\ post = <<>> /\ tried = 0 /\ hist = <<>>
Test == /\ phase = "test" /\ Len(dist) < NTest /\ Len(hist) < MaxSims
        /\ \E d \in Ds : /\ dist' = IF Finite(d) THEN Append(dist, d[2]) ELSE dist
                         /\ hist' = Append(hist, d)
        /\ UNCHANGED <<phase, eps, post, tried>>
Threshold == /\ phase = "test" /\ Len(dist) = NTest
             /\ phase' = "collect" /\ eps' = Quantile(dist, P)
             /\ UNCHANGED <<dist, post, tried, hist>>
Collect == /\ phase = "collect" /\ Len(post) < NCollect /\ Len(hist) < MaxSims
           /\ \E d \in Ds : /\ post' = IF Within(d, eps, P[2]) THEN Append(post, d) ELSE post
                            /\ hist' = Append(hist, d)
           /\ tried' = tried + 1
           /\ UNCHANGED <<phase, dist, eps>>
Finish == /\ phase = "collect" /\ Len(post) = NCollect /\ phase' = "done" /\ UNCHANGED <<dist, eps, post, tried, hist>>
Next == Test \/ Threshold \/ Collect \/ Finish
AllWithin == \A i \in DOMAIN post : Within(post[i], eps, P[2])
Complete == phase = "done" => Len(post) = NCollect /\ tried >= NCollect
\* the threshold lies between the smallest and the largest distance, and enough tests are within it
EpsInRange == phase # "test" => /\ \E i \in DOMAIN dist : dist[i] * P[2] <= eps
                                /\ \E i \in DOMAIN dist : dist[i] * P[2] >= eps
                                /\ Cardinality({i \in DOMAIN dist : dist[i] * P[2] <= eps}) * P[2] >= P[1] * (Len(dist) - 1)
Emit == Emitting /\ phase = "done" => PrintT(<<"H", ToJson([d |-> hist])>>)
=============================================================================
