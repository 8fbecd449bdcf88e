------------------------------- MODULE Regress -------------------------------
(***************************************************************************)
(* What regressions predict (C30).  Anchors: data/reg/*.py.                *)
(*                                                                         *)
(* A regressor is a record [tp, cs]: "Boolean" or "Continuous" with one    *)
(* coefficient, "Categorical" with one for each label.  Numbers are        *)
(* rationals (Dist).  Answers on other scales are read back on the scale   *)
(* of the linear predictor, so that every law below is rational.           *)
(***************************************************************************)
EXTENDS Dist

Zero == <<0, 1>>
Effect(g, v) == CASE g.tp = "Boolean" -> IF v[1] # 0 THEN g.cs[1] ELSE Zero
                  [] g.tp = "Continuous" -> Mul(g.cs[1], v)
                  [] g.tp = "Categorical" -> g.cs[v[1] + 1]
RECURSIVE Sum(_, _, _)
Sum(gs, vs, n) == IF n = 0 THEN Zero ELSE Add(Effect(gs[n], vs[n]), Sum(gs, vs, n - 1))
Predictor(gs, vs) == Sum(gs, vs, Len(gs))

(* ----------------------- hazards of a waiting time -------------------- *)
(* baseline [tp, a, k, pts]: exp with rate a; weibull with lambda a and    *)
(* shape k in {1, 2, 1/2}; empirical with points <<time, cumulative>>.     *)
(* Weibull answers are read back as their square when the shape is 1/2     *)
(* (cumulative hazard) or 2 (its inverse), so that they are rational.      *)
Half == <<1, 2>>
Two == <<2, 1>>
Shape(b) == IF b.tp = "exp" THEN One ELSE b.k
\* cumulative hazard at t
Cum(b, t) == CASE b.tp = "empirical" ->
                    LET n == Len(b.pts) IN
                    IF LessEq(b.pts[n][1], t) THEN b.pts[n][2]
                    ELSE LET i == CHOOSE j \in 1..(n - 1) : LessEq(b.pts[j][1], t) /\ Less(t, b.pts[j + 1][1])
                             p == b.pts[i]  s == b.pts[i + 1]
                         IN Add(p[2], Mul(Sub(s[2], p[2]), Div(Sub(t, p[1]), Sub(s[1], p[1]))))
               [] Shape(b) = One -> Mul(b.a, t)
               [] Shape(b) = Two -> Sq(Mul(b.a, t))
               [] Shape(b) = Half -> Mul(b.a, t)        \* the square of it
CumPower(b) == IF b.tp # "empirical" /\ Shape(b) = Half THEN 2 ELSE 1
Flip(b) == [b EXCEPT !.pts = [i \in DOMAIN @ |-> <<@[i][2], @[i][1]>>]]
InvCum(b, h) == CASE b.tp = "empirical" -> Cum(Flip(b), h)
                  [] Shape(b) = One -> Div(h, b.a)
                  [] Shape(b) = Two -> Div(h, Sq(b.a))  \* the square of it
                  [] Shape(b) = Half -> Div(Sq(h), b.a)
InvPower(b) == IF b.tp # "empirical" /\ Shape(b) = Two THEN 2 ELSE 1
\* mean (for shape 2: its square) and variance under a risk ratio; Gamma(3/2)^2 = pi/4
QuarterPi == <<1775, 2260>>
WaitMean(b, rr) == CASE Shape(b) = One -> Inv(Mul(b.a, rr))
                     [] Shape(b) = Two -> Div(QuarterPi, Mul(Sq(b.a), rr))
                     [] Shape(b) = Half -> Div(Two, Mul(b.a, Sq(rr)))
MeanPower(b) == IF Shape(b) = Two THEN 2 ELSE 1
WaitVar(b, rr) == CASE Shape(b) = One -> Inv(Sq(Mul(b.a, rr)))
                    [] Shape(b) = Two -> Div(Sub(One, QuarterPi), Mul(Sq(b.a), rr))
                    [] Shape(b) = Half -> Div(Num(20), Sq(Mul(b.a, Sq(rr))))
\* density divided by the share still waiting: rr * H'(t); for shape 1/2 the square of it
Rate(b, rr, t) == CASE b.tp = "empirical" ->
                         LET n == Len(b.pts)
                             i == CHOOSE j \in 1..(n - 1) : Less(b.pts[j][1], t) /\ Less(t, b.pts[j + 1][1])
                         IN Mul(rr, Div(Sub(b.pts[i + 1][2], b.pts[i][2]), Sub(b.pts[i + 1][1], b.pts[i][1])))
                    [] Shape(b) = One -> Mul(rr, b.a)
                    [] Shape(b) = Two -> Mul(rr, Mul(Two, Mul(Sq(b.a), t)))
                    [] Shape(b) = Half -> Div(Mul(Sq(rr), b.a), Mul(Num(4), t))
RatePower(b) == CumPower(b)
\* share (in thousands) still waiting at the time of cumulative hazard h, in quarters
Waiting(h4) == CASE h4 = 1 -> 779 [] h4 = 2 -> 607 [] h4 = 4 -> 368 [] h4 = 8 -> 135 [] h4 = 12 -> 50

\* zero inflation with probability p
ZeroMean(b, rr, p) == LET m == WaitMean(b, rr) IN IF MeanPower(b) = 2 THEN Mul(m, Sq(Sub(One, p))) ELSE Mul(m, Sub(One, p))
ZeroVar(b, rr, p) == LET m2 == IF MeanPower(b) = 2 THEN WaitMean(b, rr) ELSE Sq(WaitMean(b, rr))
                     IN Mul(Sub(One, p), Add(WaitVar(b, rr), Mul(p, m2)))
=============================================================================
