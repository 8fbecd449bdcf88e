------------------------------ MODULE FitterMC ------------------------------
(* Stage M for C31: every history of a few actions on two fitters; prints   *)
(* the histories for replay.                                                *)
EXTENDS Fitter, Json
CONSTANTS Steps, Emitting
VARIABLES F, hist, asked, memo

Ids == {1, 2}
Models == {"m1", "m2"}
Defaults == [p |-> 0, q |-> 0]
Kws == {<<>>, [p |-> 1], [q |-> 1], [z |-> 1]}
Init == /\ F = <<Made("k", Defaults, <<>>), Made("k", Defaults, [p |-> 1])>>
        /\ hist = <<>> /\ asked = [i \in Ids |-> <<>>] /\ memo = {}
Note(op, f, kw, m, stage) == hist' = Append(hist, [op |-> op, f |-> f, kw |-> [k \in DOMAIN kw |-> k], m |-> m, stage |-> stage])
Can == Len(hist) < Steps
Update == Can /\ \E i \in Ids, kw \in Kws \ {<<>>} : F' = [F EXCEPT ![i] = Updated(@, kw)] /\ Note("update", i, kw, "", "") /\ UNCHANGED <<asked, memo>>
Attach == Can /\ \E i \in Ids, m \in Models : F' = [F EXCEPT ![i] = Attached(@, m)] /\ Note("attach", i, <<>>, m, "") /\ UNCHANGED <<asked, memo>>
Close == Can /\ \E i \in Ids : F' = [F EXCEPT ![i] = Closed(@)] /\ Note("close", i, <<>>, "", "") /\ UNCHANGED <<asked, memo>>
Fit == Can /\ \E i \in Ids, m \in Models, kw \in {<<>>, [q |-> 1]}, st \in {"done", "start", "later"} :
        /\ F' = [F EXCEPT ![i] = Fitted(@, kw, m, 0, st)] /\ Note("fit", i, kw, m, st)
        /\ asked' = [asked EXCEPT ![i] = <<Given(F[i].set, kw), m, st>>]
        /\ memo' = IF st = "done" THEN memo \cup {Key("k", Given(F[i].set, kw), m, 0)} ELSE memo
Sample == Can /\ \E i \in Ids : (CanSample(F[i]) \/ MustRefuse(F[i])) /\ Note("sample", i, <<>>, "", "") /\ UNCHANGED <<F, asked, memo>>
Next == Update \/ Attach \/ Close \/ Fit \/ Sample

\* a result is that of the last fit asked for, with the settings of that time, and only when it finished
OwnResult == \A i \in Ids : IF asked[i] = <<>> THEN F[i].res = <<"none">>
                            ELSE LET a == asked[i] IN
                                 /\ (F[i].res[1] = "key") = (a[3] = "done")
                                 /\ F[i].res[1] = "key" => F[i].res[2] = Key("k", a[1], a[2], 0) /\ F[i].res[2] \in memo
\* settings keep their names and hold given values
Known == \A i \in Ids : DOMAIN F[i].set = DOMAIN Defaults /\ F[i].set.p \in 0..1
\* nothing sampled for a model which is not the one fitted
NoMix == \A i \in Ids : CanSample(F[i]) => F[i].model = asked[i][2]
\* one fitter at a time
OnlyOne == [][\E i \in Ids : \A j \in Ids \ {i} : F'[j] = F[j]]_F
Emit == (Emitting /\ Len(hist) = Steps) => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
