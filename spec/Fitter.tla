------------------------------- MODULE Fitter -------------------------------
(***************************************************************************)
(* The life of fitters (C31): settings, models attached, fits which finish *)
(* or fail, posterior samples.  Anchors: fit/base.py (Fitter), fit/abcom,  *)
(* fit/abc_smc, fit/hme.                                                   *)
(*                                                                         *)
(* A fitter is [kind, set, model, res]:                                    *)
(*   set    its settings, a function of the names of its kind              *)
(*   model  the model attached, "idle" when none                           *)
(*   res    "none": no fit yet, or the last one failed before it had       *)
(*          anything; "open": the last one failed half-way; otherwise the  *)
(*          key of the last fit: what it was asked for                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the last value given for a known setting stands, unknown ones do nothing
Given(S, kw) == [k \in DOMAIN S |-> IF k \in DOMAIN kw THEN kw[k] ELSE S[k]]
\* everything the outcome of a fit may depend on
Key(kind, S, m, seed) == <<kind, S, m, seed>>

Made(kind, defaults, kw) == [kind |-> kind, set |-> Given(defaults, kw), model |-> "idle", res |-> <<"none">>]
Updated(f, kw) == [f EXCEPT !.set = Given(@, kw)]
Attached(f, m) == [f EXCEPT !.model = m]
Closed(f) == [f EXCEPT !.model = "idle"]
\* a fit: it finishes (stage "done"), or fails with nothing ("start") or half-way ("later")
Fitted(f, kw, m, seed, stage) ==
    LET S == Given(f.set, kw) IN
    [f EXCEPT !.set = S, !.model = m,
              !.res = IF stage = "done" THEN <<"key", Key(f.kind, S, m, seed)>> ELSE IF stage = "start" THEN <<"none">> ELSE <<"open">>]
CanSample(f) == f.res[1] = "key" /\ f.res[2][3] = f.model
MustRefuse(f) == f.res[1] = "none"
=============================================================================
