---------------------------- MODULE ConverterTrace ----------------------------
(***************************************************************************)
(* Validation of recorded conversions (C22).  Values are recorded by their *)
(* rank among all values and bounds of the domain (values closer than the  *)
(* rounding of the arithmetic share a rank); numbers of the unit interval  *)
(* by rank as well, round trips by their error in 1e-9.                    *)
(***************************************************************************)
EXTENDS Converter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
Judge(r, line) ==
  /\ Expect(r.ok, line, "C22.refused")
  /\ IF r.ok
     THEN /\ Expect(\A i, j \in DOMAIN r.pts : r.pts[i].u < r.pts[j].u => r.pts[i].v < r.pts[j].v, line, "C22.increasing")
          /\ Expect(\A i \in DOMAIN r.pts : r.lo <= r.pts[i].v /\ r.pts[i].v <= r.up, line, "C22.within")
          /\ Expect(\A i \in DOMAIN r.pts : (r.pts[i].u = r.u0 => r.pts[i].v = r.lo) /\ (r.pts[i].u = r.u1 => r.pts[i].v = r.up), line, "C22.ends")
          /\ Expect(\A i \in DOMAIN r.pts : r.pts[i].back <= r.pts[i].tol, line, "C22.back-to-number")
          /\ Expect(\A i \in DOMAIN r.vals : r.vals[i].in /\ r.vals[i].back <= r.vals[i].tol, line, "C22.back-to-value")
     ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
