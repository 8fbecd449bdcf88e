------------------------------- MODULE Targets -------------------------------
(***************************************************************************)
(* Reading targets and the distance of a simulation from them (C28).       *)
(* Anchors: fit/targets.  A datum is [form, ...]:                          *)
(*   number:  m                    -> point, error = the default           *)
(*   error:   m, e                 -> point, error e                       *)
(*   bare:    m (a dictionary)     -> point, error = the default           *)
(*   range:   m, l, u              -> range, refused unless l < m < u      *)
(*   text:    a distribution       -> distribution                         *)
(*   target:  a target object      -> itself                               *)
(*   other                         -> refused                              *)
(* Rationals as in Dist.                                                   *)
(***************************************************************************)
EXTENDS Dist

KindOf(d) == CASE d.form \in {"number", "error", "bare"} -> "point"
               [] d.form = "range" -> "range" [] d.form = "text" -> "distribution" [] OTHER -> d.form
CanRead(d) == CASE d.form = "range" -> Less(d.l, d.m) /\ Less(d.m, d.u)
                [] d.form = "other" -> FALSE
                [] OTHER -> TRUE
\* the spread by which a deviation is divided, up to the constant 2 * 1.96
Width(d, default) == CASE d.form = "error" -> Mul(d.e, <<Abs(d.m[1]), d.m[2]>>)
                       [] d.form \in {"number", "bare"} -> Mul(default, <<Abs(d.m[1]), d.m[2]>>)
                       [] d.form = "range" -> Sub(d.u, d.l)
\* one distance that meets the conditions, without the constant
Ref(d, default, y) == Div(Sq(Sub(y, d.m)), Width(d, default))
DevAbs(d, y) == LET q == Sub(y, d.m) IN <<Abs(q[1]), q[2]>>
=============================================================================
