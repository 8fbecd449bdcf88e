----------------------------- MODULE BayesNetMC -----------------------------
(***************************************************************************)
(* Stage M for C01-C04: all histories of definitions on two networks over  *)
(* a small set of names, and the step-by-step algorithms for merging and   *)
(* extending (open the copy, cut the in-edges of what is replaced, append  *)
(* one by one in the source's order, drop unused exogenous variables)      *)
(* against their declarative meaning.                                      *)
(***************************************************************************)
EXTENDS BayesNet, SequencesExt, FiniteSetsExt

CONSTANTS Names, Steps, Gen

VARIABLES A, B, n, last

DefOver(k, P) == [kind |-> k, par |-> P, tag |-> 0, des |-> ""]
DefSet(t) == {DefOver("ExoValue", {}), DefOver("Value", {})}
          \cup {[DefOver(k, P) EXCEPT !.tag = t] : k \in {"Distribution", "Pseudo"}, P \in SUBSET Names}

Init == A = Empty("A") /\ B = Empty("B") /\ n = 0 /\ last = "init"

DoDefine == \E x \in Names : \E d \in DefSet(1) :
    IF CanDefine(A, x, d) THEN A' = Define(A, x, d) /\ last' = "ok" /\ UNCHANGED B
    ELSE last' = "refused" /\ UNCHANGED <<A, B>>
DoDefineB == \E x \in Names : \E d \in DefSet(2) :
    CanDefine(B, x, d) /\ B' = Define(B, x, d) /\ last' = "ok" /\ UNCHANGED A
Toggle == A.open /\ A' = Complete(A) /\ last' = "complete" /\ UNCHANGED B
Next == n < Steps /\ n' = n + 1 /\ (DoDefine \/ DoDefineB \/ Toggle)

-----------------------------------------------------------------------------
\* the algorithm, one append at a time, with edges as separate state
RECURSIVE AppendAll(_, _, _)
\* G = [defs, edges, ok]
App(G, x, d) == LET anc == \/ x \in d.par
                           \/ x \in DOMAIN G.defs /\ Descendants(G.edges, x) \cap d.par # {}
                IN IF ~G.ok \/ anc THEN [G EXCEPT !.ok = FALSE]
                   ELSE [defs |-> WithDef(G.defs, x, d),
                         edges |-> {e \in G.edges : e[2] # x} \cup {<<p, x>> : p \in d.par}, ok |-> TRUE]
AppendAll(G, seq, D) == IF seq = <<>> THEN G ELSE AppendAll(App(G, Head(seq), D[Head(seq)]), Tail(seq), D)
OrderOf(D) == CHOOSE s \in SetToSeqs(DOMAIN D) : IsOrder(s, DOMAIN D, EdgesOf(D))
SelectIn(s, S) == SelectSeq(s, LAMBDA x : x \in S)
Cut(D, S) == {e \in EdgesOf(D) : e[2] \notin S}
MergeAlg(a, b) ==
    LET S == Really(b)
        G == AppendAll([defs |-> a, edges |-> Cut(a, S), ok |-> TRUE], SelectIn(OrderOf(b), S), b)
    IN IF ~G.ok THEN [ok |-> FALSE, defs |-> <<>>]
       ELSE [ok |-> TRUE, defs |-> Only(G.defs, {y \in DOMAIN G.defs :
                \/ G.defs[y].kind # "ExoValue"
                \/ \E e \in G.edges : e[1] = y})]
ExtendAlg(a, b, o) ==
    LET S == Brought(a, b, o)
        G == AppendAll([defs |-> b, edges |-> Cut(b, S), ok |-> TRUE], SelectIn(OrderOf(a), S), a)
    IN [ok |-> G.ok, defs |-> IF G.ok THEN G.defs ELSE <<>>]

-----------------------------------------------------------------------------
WellFormed == IsNet(A.defs) /\ IsNet(B.defs)
Reported == \A D \in {A.defs, B.defs} :
    /\ RvRootsOf(D) \subseteq RvOf(D)
    /\ DOMAIN D # {} => RootsOf(DOMAIN D, EdgesOf(D)) # {} /\ LeavesOf(DOMAIN D, EdgesOf(D)) # {}
    /\ RvOf(D) # {} => RvRootsOf(D) # {}
    /\ ExoOf(D) \subseteq RootsOf(DOMAIN D, EdgesOf(D))
MergeRight == LET r == MergeAlg(A.defs, B.defs) IN
    /\ r.ok = CanMerge(A.defs, B.defs)
    /\ r.ok => r.defs = MergeDefs(A.defs, B.defs) /\ IsNet(r.defs)
ExtendRight == \A o \in BOOLEAN : LET r == ExtendAlg(A.defs, B.defs, o) IN
    /\ r.ok = CanExtend(A.defs, B.defs, o)
    /\ r.ok => r.defs = ExtendDefs(A.defs, B.defs, o) /\ IsNet(r.defs)
Atomic == [][last' = "refused" => UNCHANGED <<A, B>>]_<<A, B, n, last>>
Frozen == [][~A.open => A'.defs = A.defs]_<<A, B, n, last>>

View == <<A, B, last>>
=============================================================================
