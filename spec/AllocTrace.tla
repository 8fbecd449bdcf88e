----------------------------- MODULE AllocTrace -----------------------------
(* Validation of recorded allocations (C12): one record per network, tree  *)
(* of groups and declaration.                                               *)
EXTENDS Alloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
NetOf(s) == [x \in {s[i].x : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].x = x
                                                 IN [kind |-> s[i].kind, par |-> RangeOf(s[i].par), c |-> s[i].c]]
TreeOf(s) == [g \in {s[i].g : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].g = g
                                                  IN [up |-> s[i].up, fx |-> RangeOf(s[i].fx), fl |-> RangeOf(s[i].fl)]]
GotOf(s) == [g \in {s[i].g : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].g = g
                                                 IN [f |-> RangeOf(s[i].f), l |-> RangeOf(s[i].l)]]
Row(s, g) == s[CHOOSE j \in DOMAIN s : s[j].g = g]

Judge(r, line) ==
  LET D == NetOf(r.net)
      T == TreeOf(r.tree) IN
  IF Refused(D, T) THEN Expect(~r.ok, line, "C12.not-refused")
  ELSE IF ~Consistent(D, T) THEN TRUE
  ELSE /\ Expect(r.ok, line, "C12.refused")
       /\ IF r.ok
          THEN LET A == GotOf(r.got) IN
               IF DOMAIN A # DOMAIN T THEN Bad(line, "C12.groups") ELSE
               /\ Expect(FixedWhereDeclared(D, T, A), line, "C12.declared-fixed")
               /\ Expect(StandsOnFixed(D, T, A), line, "C12.stands-on-fixed")
               /\ Expect(FixedOnce(D, T, A), line, "C12.fixed-once")
               /\ Expect(FloatsUnlessSure(D, T, A), line, "C12.declared-floating")
               /\ Expect(NeverBoth(D, T, A), line, "C12.fixed-and-floating")
               /\ Expect(Found(D, T, A), line, "C12.not-found")
               /\ Expect(ChanceKept(D, T, A), line, "C12.settled")
               /\ Expect(Offered(D, T, A), line, "C12.not-offered")
               /\ Expect(NobodyLost(D, T, A), line, "C12.lost")
               /\ Expect(\A g \in DOMAIN T : LET w == Row(r.got, g) IN
                     /\ RangeOf(w.kids) = KidsG(T, g)
                     /\ IsSubOrder(w.f, A[g].f, EdgesOf(D)) /\ Distinct(w.l)
                     /\ RangeOf(w.exo) = NeedsAt(D, A, g) /\ RangeOf(w.listen) = ListensAt(D, A, g), line, "C12.group")
               /\ Expect(\A g \in DOMAIN T : LET s == RangeOf(Row(r.got, g).samplers) IN A[g].l \subseteq s /\ s \subseteq SamplersMost(T, A, g), line, "C12.samplers")
               /\ Expect(r.root = RootG(T), line, "C12.root")
               /\ Expect(LET g == RootG(T) IN Distinct(r.free) /\ RangeOf(r.free) = FreeAt(D, A, g), line, "C12.free")
               /\ IF r.how = "fixed" THEN Expect(A[RootG(T)].f = DOMAIN D /\ A[RootG(T)].l = {}, line, "C12.all-fixed")
                  ELSE IF r.how = "floating" THEN Expect(A[RootG(T)].f = Sure(D) /\ A[RootG(T)].l = DOMAIN D \ Sure(D), line, "C12.all-floating")
                  ELSE TRUE
          ELSE TRUE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l], l)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
