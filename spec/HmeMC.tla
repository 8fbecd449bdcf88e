-------------------------------- MODULE HmeMC --------------------------------
(* Stage M for C21: candidates on a grid, every implausibility, some waves. *)
EXTENDS Hme
CONSTANTS N, Grid, MaxImp, Waves, A1, A2, Limit
VARIABLES lo, up, wave, lo0, up0, last
A == <<A1, A2>>
Init == lo = <<0>> /\ up = <<Grid>> /\ wave = 0 /\ lo0 = lo /\ up0 = up /\ last = [imps |-> <<>>, kept |-> {}, co |-> 0]
Wave == /\ wave < Waves
        /\ \E xs \in [1..N -> {<<x>> : x \in lo[1]..up[1]}], imps \in [1..N -> 0..MaxImp] :
             LET co == CutOff(imps, Limit, A)  S == Kept(imps, co, A) IN
             /\ last' = [imps |-> imps, kept |-> S, co |-> co]
             /\ lo' = <<Lowest(xs, S, 1)>> /\ up' = <<Highest(xs, S, 1)>>
        /\ wave' = wave + 1 /\ lo0' = lo /\ up0' = up
Next == Wave
Nested == lo0[1] <= lo[1] /\ up[1] <= up0[1] /\ lo[1] <= up[1]
Enough == wave > 0 => Cardinality(last.kept) * A2 >= A1 * (N - 1) /\ last.kept # {}
NoneLeftOut == wave > 0 => \A i \in 1..N : last.imps[i] <= Limit => i \in last.kept
MonotoneKept == wave > 0 => \A i, j \in 1..N : i \in last.kept /\ last.imps[j] <= last.imps[i] => j \in last.kept
=============================================================================
