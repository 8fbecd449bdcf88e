----------------------------- MODULE MonitorMC -----------------------------
(***************************************************************************)
(* Stage M and G for C17: every history of Steps operations on Mons        *)
(* monitors; the ghost h is the history, printed for the replay.           *)
(***************************************************************************)
EXTENDS Monitor, Json, SequencesExt
CONSTANTS Steps, Mons, Emitting
VARIABLES M, h, m0

Kept == {[a |-> 1], [a |-> 2], [b |-> 1], [a |-> 3, b |-> 2]}
Moves == [op : {"keep"}, m : 1..Mons, kv : Kept]
    \cup [op : {"step"}, m : 1..Mons]
    \cup [op : {"to"}, m : 1..Mons, by : {-1, 0, 1, 2}]
    \cup [op : {"reset"}, m : 1..Mons, t : {0, 3}]
After(S, v) == CASE v.op = "keep" -> Keep(S, v.kv)
                 [] v.op = "step" -> Step(S, S.time + 1)
                 [] v.op = "to" -> IF CanStep(S, S.time + v.by) THEN Step(S, S.time + v.by) ELSE S
                 [] v.op = "reset" -> Reset(v.t)
Init == M = [i \in 1..Mons |-> NewMonitor] /\ h = <<>> /\ m0 = M
Next == /\ Len(h) < Steps
        /\ \E v \in Moves : M' = [M EXCEPT ![v.m] = After(@, v)] /\ h' = Append(h, v)
        /\ m0' = M

Emit == Emitting /\ Len(h) = Steps => PrintT(<<"H", ToJson(h)>>)

\* records are stamped in strictly increasing order, each before the current time
Stamped == \A i \in 1..Mons : \A j \in DOMAIN M[i].recs :
    /\ M[i].recs[j].t < M[i].time
    /\ j > 1 => M[i].recs[j-1].t < M[i].recs[j].t
\* records only grow at the end, one at a time, unless reset
LastMove == h[Len(h)]
GrowsByOne == h # <<>> => \A i \in 1..Mons :
    IF LastMove.m = i /\ LastMove.op = "reset" THEN M[i].recs = <<>>
    ELSE /\ Len(M[i].recs) \in {Len(m0[i].recs), Len(m0[i].recs) + 1}
         /\ SubSeq(M[i].recs, 1, Len(m0[i].recs)) = m0[i].recs
         /\ M[i].time >= m0[i].time
         /\ (M[i].time > m0[i].time) = (Len(M[i].recs) > Len(m0[i].recs))
OthersKept == h # <<>> => \A i \in 1..Mons : i # LastMove.m => M[i] = m0[i]
\* nothing kept is lost or recorded twice: values closed plus values open are the latest ones kept
ClosedIsOpen == h # <<>> => LET i == LastMove.m IN
    (Len(M[i].recs) = Len(m0[i].recs) + 1) => /\ M[i].recs[Len(M[i].recs)] = [t |-> m0[i].time, kv |-> m0[i].last]
                                              /\ M[i].last = <<>>
=============================================================================
