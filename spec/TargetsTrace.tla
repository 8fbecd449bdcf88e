---------------------------- MODULE TargetsTrace ----------------------------
(***************************************************************************)
(* Validation of recorded targets (C28).  Distances of one target to many  *)
(* simulated values are recorded by rank (equal up to rounding: the same   *)
(* rank; rank 0 is zero); numbers are recorded in 1/10000.                 *)
(***************************************************************************)
EXTENDS Targets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
QOf(s) == Norm(<<s[1], s[2]>>)
DatumOf(t) == [form |-> t.form, m |-> QOf(t.m), e |-> QOf(t.e), l |-> QOf(t.l), u |-> QOf(t.u)]
S0 == 10000

One1(t, line) ==
  LET d == DatumOf(t) IN
  /\ Expect(t.kind = KindOf(d) /\ (t.name = t.k \/ d.form = "target"), line, "C28.kind")
  /\ Expect(d.form = "target" => t.itself, line, "C28.kept")
  /\ IF KindOf(d) \in {"point", "range"}
     THEN /\ Expect(Near(t.ev, S0, d.m, 2), line, "C28.mean")
          /\ Expect(\A i \in DOMAIN t.ds : LET a == t.ds[i] IN
                (a.r = 0) = (QOf(a.y) = d.m), line, "C28.zero")
          /\ Expect(\A i, j \in DOMAIN t.ds : LET a == t.ds[i] b == t.ds[j] IN
                /\ Less(DevAbs(d, QOf(a.y)), DevAbs(d, QOf(b.y))) => a.r < b.r
                /\ Norm(DevAbs(d, QOf(a.y))) = Norm(DevAbs(d, QOf(b.y))) => a.r = b.r, line, "C28.grows")
     ELSE TRUE
  \* distance to a distribution: minus its log-density, in 1/10000 (or infinite)
  /\ IF KindOf(d) = "distribution"
     THEN Expect(\A i \in DOMAIN t.lp : LET a == t.lp[i] IN
             IF a.inf THEN a.dinf ELSE ~a.dinf /\ a.d + a.lp <= 2 /\ -(a.d + a.lp) <= 2, line, "C28.density")
     ELSE TRUE

Read(r, line) ==
  LET can == \A i \in DOMAIN r.ts : CanRead(DatumOf(r.ts[i])) IN
  /\ Expect(r.ok = can, line, "C28.refusal")
  /\ IF r.ok /\ can
     THEN /\ Expect({r.keys[i] : i \in DOMAIN r.keys} = {r.ts[i].k : i \in DOMAIN r.ts} /\ Len(r.keys) = Len(r.ts), line, "C28.entries")
          /\ \A i \in DOMAIN r.ts : One1(r.ts[i], line)
     ELSE TRUE
\* the same datum with two errors e1, e2: distance times error is the same, variance by the square of the error
Scale(r, line) ==
  LET a == r.d1 * r.e1[1] * r.e2[2]  b == r.d2 * r.e2[1] * r.e1[2]
      tol == 2 * (r.e1[1] * r.e2[2] + r.e2[1] * r.e1[2]) IN
  /\ Expect(r.ok, line, "C28.refusal")
  /\ Expect(r.ok => a - b <= tol /\ b - a <= tol, line, "C28.scales")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN IF r.op = "read" THEN Read(r, l) ELSE Scale(r, l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
