-------------------------------- MODULE SmcMC --------------------------------
(***************************************************************************)
(* Stage M for C20: a population of N, every pattern of distances, every   *)
(* resampling and every pattern of accepted mutations.                     *)
(***************************************************************************)
EXTENDS Smc
CONSTANTS N, MaxD, MaxRound, A1, A2, T1, T2
Alpha == <<A1, A2>>
Thr == <<T1, T2>>
VARIABLES d, live, eps, round, stay, eps0, moved, failed
vars == <<d, live, eps, round, stay, eps0, moved, failed>>
K == Unit(N, Alpha)
Init == /\ d \in {f \in [1..N -> 0..MaxD] : \A i \in 1..(N - 1) : f[i] <= f[i + 1]}
        /\ live = 1..N /\ eps = Inf /\ round = 0 /\ stay = 0 /\ eps0 = Inf /\ moved = N /\ failed = FALSE
Round == /\ round < MaxRound /\ ~failed
         /\ LET e1 == NextEps(d, eps, Alpha)
                L1 == Survivors(live, d, e1, K) IN
            IF ~CanGoOn(L1) THEN failed' = TRUE /\ UNCHANGED <<d, live, eps, round, stay, eps0, moved>>
            ELSE /\ \E src \in IF MustResample(L1, N, Thr) THEN [1..N -> L1] ELSE {[i \in 1..N |-> i]} :
                    \E new \in [1..N -> {-1} \cup (0..MaxD)] :      \* -1: the mutation is not accepted
                    /\ \A i \in 1..N : new[i] = -1 \/ new[i] * K <= e1
                    /\ d' = [i \in 1..N |-> IF new[i] = -1 THEN d[src[i]] ELSE new[i]]
                    /\ moved' = Cardinality({i \in 1..N : new[i] # -1})
                 /\ live' = IF MustResample(L1, N, Thr) THEN 1..N ELSE L1
                 /\ eps' = e1 /\ eps0' = eps /\ round' = round + 1
                 /\ stay' = IF Stays(d, eps, Alpha) THEN stay + 1 ELSE 0
                 /\ UNCHANGED failed
Next == Round
Falls == eps <= eps0
LiveWithin == eps # Inf => \A i \in live : d[i] * K <= eps
Alive == ~failed => CanGoOn(live)
FirstIsFinite == round > 0 => eps # Inf
=============================================================================
