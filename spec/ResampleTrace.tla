---------------------------- MODULE ResampleTrace ----------------------------
(* Validation of recorded resamplings (C25).                                *)
EXTENDS Resample, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
Judge(r, line) ==
  LET w == [i \in DOMAIN r.w |-> <<r.w[i][1], r.w[i][2]>>] IN
  \* a weight below zero is refused
  IF \E i \in DOMAIN w : w[i][1] = "neg" THEN Expect(~r.ok /\ r.same, line, "C25.accepted")
  ELSE IF ~CanResample(w) THEN TRUE          \* nobody to draw
  ELSE /\ Expect(r.ok, line, "C25.refused")
       /\ Expect(r.same, line, "C25.input-changed")
       /\ IF r.ok
          THEN /\ Expect(Right(w, r.asked, r.sel), line, "C25.members")
               /\ Expect(r.comp => r.cosel = r.sel, line, "C25.companions")
               /\ Expect(Len(r.sel) >= 200 => Fair(w, r.sel), line, "C25.proportion")
               \* exp(log mean weight over the new size), in thousandths of the unit, times the new size
               /\ Expect(LET d == r.mean - 1000 * Total(w) IN d <= 1 /\ -d <= 1, line, "C25.mean-weight")
          ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
