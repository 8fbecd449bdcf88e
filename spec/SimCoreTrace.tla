---------------------------- MODULE SimCoreTrace ----------------------------
(* Validation of recorded histories of parameter cores (C13-C16).           *)
EXTENDS SimCore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, D, T, A, C, seen

Bad(line, clause) == PrintT(<<"BAD", line, clause>>)
Expect(cond, line, clause) == IF cond THEN TRUE ELSE Bad(line, clause)
Map(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j][1] = x IN s[i][2]]
LogOf(s) == [i \in DOMAIN s |-> [x |-> s[i].x, v |-> s[i].v, pas |-> Map(s[i].pas)]]
NetOf(s) == [x \in {s[i].x : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].x = x
                                                 IN [kind |-> s[i].kind, par |-> RangeOf(s[i].par), c |-> s[i].c]]
TreeOf(s) == [g \in {s[i].g : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].g = g
                                                  IN [up |-> s[i].up, fx |-> RangeOf(s[i].fx), fl |-> RangeOf(s[i].fl)]]
GotOf(s) == [g \in {s[i].g : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].g = g
                                                 IN [f |-> RangeOf(s[i].f), l |-> RangeOf(s[i].l), s |-> RangeOf(s[i].samplers)]]
CoresOf(s) == [i \in {s[k].id : k \in DOMAIN s} |->
                 LET k == CHOOSE j \in DOMAIN s : s[j].id = i IN
                 [g |-> s[k].g, nick |-> s[k].nick, up |-> s[k].up, own |-> Map(s[k].own), lp |-> s[k].lp, kids |-> Map(s[k].kids)]]
\* looking a variable up in a core gives the nearest value
ViewsRight(s, C2) == \A k \in DOMAIN s : Map(s[k].view) = View(C2, s[k].id) /\ Map(s[k].pairs) = View(C2, s[k].id)
Fixed(g) == A[g].f

Judge(r, line) ==
  LET C2 == CoresOf(r.cores)
      log == LogOf(r.log)
      \* a clause of the operation itself, and of what went before it
      Fail(cond, id, clause) ==
         IF cond THEN TRUE
         ELSE /\ Bad(line, id \o "." \o clause)
              /\ ("impulse" \in seen /\ id = "C14") => Bad(line, "C15." \o clause)
              /\ ("apart" \in seen /\ id \in {"C13", "C14", "C15"}) => Bad(line, "C16." \o clause)
      Views(id) == Fail(ViewsRight(r.cores, C2), id, "lookup")
      Quiet(id) == Fail(C2 = C, id, "changed") /\ Fail(log = <<>>, id, "drawn")
  IN
  CASE r.op = "start" -> TRUE
    [] r.op \in {"generate", "breed", "sibling", "prototype"} ->
         LET up == r.up
             g == IF r.op = "generate" THEN RootG(T) ELSE r.g
             given == Map(r.given)
             ok == r.op = "generate" \/ (g \in KidsG(T, C[up].g) /\ (r.op = "prototype" \/ r.nick \notin DOMAIN C[up].kids))
         IN IF ~ok THEN Fail(~r.ok, "C13", "not-refused") /\ Quiet("C13")
            ELSE IF ~GivenFits(D, Fixed(g), UpView(C, up), given) THEN TRUE
            ELSE /\ Fail(r.ok, "C13", "refused")
                 /\ IF r.ok /\ r.id \in DOMAIN C2 \ DOMAIN C
                    THEN LET n == C2[r.id] IN
                         /\ Fail(n.g = g /\ n.nick = (IF r.op = "prototype" THEN n.nick ELSE r.nick) /\ n.up = up /\ n.kids = <<>>, "C13", "place")
                         /\ Fail(NewRight(D, Fixed(g), UpView(C, up), given, log, n.own), "C13", "values")
                         /\ Fail(n.lp = Score(D, A, C2, r.id), "C13", "log-probability")
                         /\ Fail(Others(C, C2, {up}), "C13", "others-changed")
                         /\ IF up = 0 THEN TRUE
                            ELSE Fail(C2[up] = IF r.op = "prototype" THEN C[up]
                                               ELSE [C[up] EXCEPT !.kids = Over([x \in {r.nick} |-> r.id], @)], "C13", "parent-changed")
                         /\ Views("C13")
                    ELSE Fail(FALSE, "C13", "nothing-made")
    [] r.op = "find" ->
         LET RECURSIVE Walk(_, _)
             Walk(i, p) == IF p = <<>> THEN i ELSE IF i = 0 \/ Head(p) \notin DOMAIN C[i].kids THEN 0 ELSE Walk(C[i].kids[Head(p)], Tail(p))
         IN /\ Fail(r.found = Walk(r.id, r.path), "C13", "find") /\ Quiet("C13")
    [] r.op = "deep" ->
         LET S == Sub(C, r.id) IN
         /\ IF \E k \in S : C[k].lp[1] = "none" THEN TRUE
            ELSE Fail(r.lp = IF \E k \in S : C[k].lp[1] = "inf" THEN <<"inf", 0>> ELSE <<"fin", SumOf([k \in S |-> C[k].lp[2]], S)>>, "C13", "deep")
         /\ Quiet("C13")
    [] r.op = "remove" ->
         LET has == r.nick \in DOMAIN C[r.id].kids IN
         /\ Fail(r.found = IF has THEN C[r.id].kids[r.nick] ELSE 0, "C16", "removed")
         /\ Fail(C2 = IF has THEN [C EXCEPT ![r.id].kids = Without(@, r.nick)] ELSE C, "C16", "remove")
    [] r.op = "handle" ->
         /\ Fail(r.ok <=> r.x \in A[C[r.id].g].s, "C14", "offered") /\ Quiet("C14")
    [] r.op = "draw" ->
         IF ~(\A y \in DrawnFor(D, View(C, r.id), r.x) : D[y].par \subseteq DrawnFor(D, View(C, r.id), r.x) \cup DOMAIN View(C, r.id)) THEN TRUE
         ELSE /\ Fail(r.ok, "C14", "refused")
              /\ IF r.ok THEN /\ Fail(DrawsRight(D, View(C, r.id), r.x, log, r.vs), "C14", "conditional")
                              /\ Fail(Len(r.vs) = r.n, "C14", "number") ELSE TRUE
              /\ Fail(C2 = C, "C14", "changed")
    [] r.op = "impulse" ->
         LET set == Map(r.given)  R == RangeOf(r.redraw) IN
         IF ~CanIntervene(D, A, C, r.id, set, R) THEN TRUE
         ELSE /\ Fail(r.ok, "C15", "refused")
              /\ IF r.ok THEN
                   /\ Fail(SamePlace(C, C2, DOMAIN C) /\ DOMAIN C2 = DOMAIN C, "C15", "places")
                   /\ Fail(Others(C, C2, Sub(C, r.id)), "C15", "others-changed")
                   /\ Fail(DOMAIN C2 = DOMAIN C /\ InterveneRight(D, A, C, C2, r.id, set, R, log), "C15", "values")
                   /\ Fail(\A k \in Sub(C, r.id) : ScoreRight(D, A, C2, k), "C15", "log-probability")
                   /\ Views("C15")
                 ELSE TRUE
    [] r.op = "clone" ->
         LET m == Map(r.map) IN
         IF C[r.id].up # 0 THEN Fail(~r.ok, "C16", "clone-not-refused") /\ Quiet("C16")
         ELSE /\ Fail(r.ok, "C16", "clone-refused")
              /\ IF r.ok THEN /\ Fail(CloneRight(C, C2, r.id, m, r.deep), "C16", "clone")
                              /\ Fail(Others(C, C2, {}) /\ log = <<>>, "C16", "clone-changed")
                              /\ Fail(r.sc, "C16", "clone-group") /\ Views("C16")
                 ELSE TRUE
    [] r.op = "duplicate" ->
         IF C[r.id].up = 0 THEN Fail(~r.ok, "C16", "duplicate-not-refused") /\ Quiet("C16")
         ELSE IF r.nick \in DOMAIN C[C[r.id].up].kids THEN Fail(~r.ok, "C16", "duplicate-not-refused") /\ Quiet("C16")
         ELSE /\ Fail(r.ok /\ r.new \in DOMAIN C2, "C16", "duplicate-refused")
              /\ IF r.ok /\ r.new \in DOMAIN C2
                 THEN /\ Fail(C2[r.new] = [C[r.id] EXCEPT !.nick = r.nick, !.kids = <<>>, !.lp = Score(D, A, C, r.id)], "C16", "duplicate")
                      /\ Fail(Others(C, C2, {C[r.id].up}) /\ log = <<>>, "C16", "duplicate-changed")
                      /\ Fail(C2[C[r.id].up] = [C[C[r.id].up] EXCEPT !.kids = Over([x \in {r.nick} |-> r.new], @)], "C16", "duplicate-place")
                      /\ Views("C16")
                 ELSE TRUE
    [] r.op = "detach" ->
         /\ Fail(r.ok, "C16", "detach-refused")
         /\ IF r.ok /\ C[r.id].up # 0
            THEN /\ Fail(C2 = Detached(C, r.id, r.collect), "C16", "detach") /\ Fail(log = <<>>, "C16", "drawn") /\ Views("C16")
            ELSE Quiet("C16")
    [] r.op = "reset_sc" -> Fail(r.ok, "C16", "reset-refused") /\ Quiet("C16")
    [] OTHER -> Bad(line, "unknown-op")

Init == l = 1 /\ D = <<>> /\ T = <<>> /\ A = <<>> /\ C = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           /\ Judge(r, l)
           /\ IF r.op = "start" THEN D' = NetOf(r.net) /\ T' = TreeOf(r.tree) /\ A' = GotOf(r.got) /\ seen' = {}
              ELSE /\ UNCHANGED <<D, T, A>>
                   /\ seen' = seen \cup (IF r.op = "impulse" THEN {"impulse"} ELSE {})
                                   \cup (IF r.op \in {"clone", "duplicate", "detach", "reset_sc", "remove"} THEN {"apart"} ELSE {})
           /\ C' = CoresOf(r.cores)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
