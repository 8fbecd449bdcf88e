---------------------------- MODULE MonitorTrace ----------------------------
(* Validation of recorded histories of monitors (C17).  Times are counted   *)
(* in quarters; every record carries what is observed after the operation.  *)
EXTENDS Monitor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
MapOf(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
RecsOf(s) == [i \in DOMAIN s |-> [t |-> s[i].t, kv |-> MapOf(s[i].kv)]]
Known == DOMAIN M
\* a table shows nothing where the value is missing
Filled(m) == [k \in {j \in DOMAIN m : m[j] # "none"} |-> m[k]]
FilledRecs(s) == [i \in DOMAIN s |-> [t |-> s[i].t, kv |-> Filled(s[i].kv)]]

Should(r, S) == CASE r.op = "keep" -> TRUE
                  [] r.op = "step" -> TRUE
                  [] r.op = "to" -> CanStep(S, r.t)
                  [] OTHER -> TRUE
After(r, S) == CASE r.op = "keep" -> Keep(S, MapOf(r.kv))
                 [] r.op = "step" -> Step(S, S.time + 4)
                 [] r.op = "to" -> IF CanStep(S, r.t) THEN Step(S, r.t) ELSE S
                 [] r.op = "reset" -> Reset(r.t)
                 [] OTHER -> S

Judge(r, line) ==
  LET S == IF r.m \in Known THEN M[r.m] ELSE NewMonitor
      S1 == After(r, S) IN
  /\ Expect(r.ok = Should(r, S), line, "C17.refusal")
  /\ Expect(r.obs = "", line, "C17.unreadable")
  /\ IF r.obs = ""
     THEN /\ Expect(r.time = S1.time, line, "C17.time")
          /\ Expect(MapOf(r.last) = S1.last, line, "C17.open-record")
          /\ Expect(RecsOf(r.recs) = S1.recs, line, "C17.records")
          /\ \A i \in DOMAIN r.tabs : LET T == r.tabs[i] IN
               Expect(/\ T.ok
                      /\ RecsOf(T.rows) = FilledRecs(S1.recs)
                      /\ {T.cols[j] : j \in DOMAIN T.cols} = Columns(S1)
                      /\ Len(T.cols) = Cardinality(Columns(S1)), line, "C17." \o T.what)
     ELSE TRUE
  /\ M' = (r.m :> S1) @@ M

Init == l = 1 /\ M = <<>>
Next == /\ l <= Len(Trace)
        /\ IF Trace[l].op = "case" THEN M' = <<>> ELSE Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
