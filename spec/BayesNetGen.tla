---------------------------- MODULE BayesNetGen ----------------------------
(***************************************************************************)
(* Stage G for C01-C04: all histories of Steps definitions over Names, and *)
(* all networks over Names, printed for the replay on the real code.       *)
(***************************************************************************)
EXTENDS BayesNet, Json, SequencesExt, FiniteSetsExt
CONSTANTS Names, Steps, KindsUsed
VARIABLES h

Defs == {[kind |-> k, par |-> P] : k \in KindsUsed, P \in SUBSET Names}
DefsUsed == {d \in Defs : d.kind \in {"ExoValue", "Value"} => d.par = {}}
          \ {d \in Defs : d.kind = "Function" /\ d.par = {}}
Moves == {[x |-> x, kind |-> d.kind, par |-> SetToSeq(d.par)] : x \in Names, d \in DefsUsed}

Init == h = <<>>
Next == Len(h) < Steps /\ \E m \in Moves : h' = Append(h, m)
Emit == Len(h) = Steps => PrintT(<<"H", ToJson(h)>>)

\* all networks over subsets of Names
Nets == {D \in UNION {[S -> DefsUsed] : S \in SUBSET Names} : D # <<>> /\ IsNet(D)}
NetRec(D) == [x \in DOMAIN D |-> [kind |-> D[x].kind, par |-> SetToSeq(D[x].par)]]
InitN == h \in Nets
NextN == UNCHANGED h
EmitN == PrintT(<<"N", ToJson(NetRec(h))>>)
=============================================================================
