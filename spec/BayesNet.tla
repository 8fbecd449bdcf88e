------------------------------ MODULE BayesNet ------------------------------
(***************************************************************************)
(* Bayesian networks built by definitions: the abstract state of a network *)
(* is its name, whether it is open, and a definition for every variable.   *)
(* The edges are not state: they follow from the definitions.              *)
(* Anchors: bayesnet/bn.py (append_loci, complete, defrost, copy, clone,   *)
(* merge, extend, bayes_net_from_json / _script).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Graphs

\* a definition: kind, parents, tag (what identifies this definition), description
ExoDef == [kind |-> "ExoValue", par |-> {}, tag |-> 0, des |-> ""]

Vars(D) == DOMAIN D
EdgesOf(D) == UNION {{<<p, n>> : p \in D[n].par} : n \in DOMAIN D}
IsNet(D) == (\A n \in DOMAIN D : D[n].par \subseteq DOMAIN D) /\ Acyclic(DOMAIN D, EdgesOf(D))

\* a network also holds a table of the functions its user has added
Empty(name) == [name |-> name, open |-> TRUE, defs |-> <<>>, fns |-> {}]
CanAddFn(N, f) == f \notin N.fns
AddFn(N, f) == [N EXCEPT !.fns = @ \cup {f}]

-----------------------------------------------------------------------------
\* C01, C02: one definition
Closes(D, x, d) == \/ x \in d.par
                   \/ x \in DOMAIN D /\ Descendants(EdgesOf(D), x) \cap d.par # {}
CanDefine(N, x, d) == N.open /\ ~Closes(N.defs, x, d)
WithDef(D, x, d) == [y \in DOMAIN D \cup {x} \cup d.par |->
                        IF y = x THEN d ELSE IF y \in DOMAIN D THEN D[y] ELSE ExoDef]
Define(N, x, d) == [N EXCEPT !.defs = WithDef(N.defs, x, d)]
Complete(N) == [N EXCEPT !.open = FALSE]
Defrost(N) == [N EXCEPT !.open = TRUE]

-----------------------------------------------------------------------------
\* what a network reports about itself
ExoOf(D) == {n \in DOMAIN D : D[n].kind = "ExoValue"}
RvOf(D) == {n \in DOMAIN D : D[n].kind = "Distribution"}
\* whether x still depends on chance when the variables in S are known
ChanceOf(D, x, S) == \/ x \in RvOf(D)
                     \/ (Ancestors({e \in EdgesOf(D) : e[2] \notin S \ {x}}, x) \ S) \cap RvOf(D) # {}
RvRootsOf(D) == {n \in RvOf(D) : Ancestors(EdgesOf(D), n) \cap RvOf(D) = {}}

-----------------------------------------------------------------------------
\* C03
CopyOf(N, name) == [N EXCEPT !.name = name]
CloneOf(N) == [N EXCEPT !.open = FALSE]
\* read back from a document: everything but the functions, which no document can hold
Reproduces(M, N) == M.fns \subseteq N.fns /\ [M EXCEPT !.fns = {}] = [CloneOf(N) EXCEPT !.fns = {}]

-----------------------------------------------------------------------------
\* C04, declaratively
Really(D) == {n \in DOMAIN D : D[n].kind \notin {"ExoValue", "Pseudo"}}
AddMissing(D) == [y \in DOMAIN D \cup UNION {D[n].par : n \in DOMAIN D} |-> IF y \in DOMAIN D THEN D[y] ELSE ExoDef]
Override(A, D) == [y \in DOMAIN A \cup DOMAIN D |-> IF y \in DOMAIN D THEN D[y] ELSE A[y]]
Only(D, S) == [y \in S |-> D[y]]
Used(D) == UNION {D[n].par : n \in DOMAIN D}
MergeDefs(A, B) == LET D == AddMissing(Override(A, Only(B, Really(B))))
                   IN Only(D, {y \in DOMAIN D : D[y].kind # "ExoValue" \/ y \in Used(D)})
MergeRaw(A, B) == AddMissing(Override(A, Only(B, Really(B))))
CanMerge(A, B) == IsNet(MergeRaw(A, B))
Merge(A, B, name) == [name |-> name, open |-> TRUE, defs |-> MergeDefs(A.defs, B.defs), fns |-> A.fns \cup B.fns]

\* A extends B (B is changed and completed)
Brought(A, B, override) == (DOMAIN A \ DOMAIN B) \cup (IF override THEN Really(A) ELSE {})
ExtendDefs(A, B, override) == AddMissing(Override(B, Only(A, Brought(A, B, override))))
CanExtend(A, B, override) == IsNet(ExtendDefs(A, B, override))
Extend(A, B, override) == [name |-> B.name, open |-> FALSE, defs |-> ExtendDefs(A.defs, B.defs, override), fns |-> B.fns]
=============================================================================
