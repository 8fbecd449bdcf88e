------------------------------ MODULE Monitor ------------------------------
(***************************************************************************)
(* A monitor keeps values in an open record and closes it at each step     *)
(* (C17).  Anchors: monitor.py.                                            *)
(*                                                                         *)
(* M: [time, last, recs]; last and the bodies of recs are maps from names  *)
(* to values; a closed record carries the time that was left.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewMonitor == [time |-> 0, last |-> <<>>, recs |-> <<>>]
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Keep(M, kv) == [M EXCEPT !.last = Over(@, kv)]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
CanStep(M, t) == t >= M.time
Step(M, t) == IF t <= M.time THEN M
              ELSE [time |-> t, last |-> <<>>,
                    recs |-> Append(M.recs, [t |-> M.time, kv |-> Without(M.last, "Time")])]
Reset(t) == [time |-> t, last |-> <<>>, recs |-> <<>>]

\* the table of trajectories: one row per record, one column per name that any record has
Columns(M) == UNION {DOMAIN M.recs[i].kv : i \in DOMAIN M.recs}
=============================================================================
