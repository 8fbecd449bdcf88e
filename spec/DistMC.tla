------------------------------- MODULE DistMC -------------------------------
(***************************************************************************)
(* Stage M for C26: the moments by definition from the probabilities of    *)
(* the finite distributions agree with the formulas, and the formulas      *)
(* respect bounds, location and scale.                                     *)
(***************************************************************************)
EXTENDS Dist
CONSTANTS MaxN
VARIABLES f, p

Fracs == {<<n, d>> \in (0..4) \X {1, 2, 4} : n <= 4 * d}
Halves == {<<n, 2>> : n \in 1..7}
Unit == {<<n, 4>> : n \in 0..4}
Cases == [f : {"binom"}, p : {<<Num(n), q>> : n \in 1..MaxN, q \in Unit}]
  \cup [f : {"unif", "beta", "gamma", "invgamma", "norm"}, p : Halves \X Halves]
  \cup [f : {"exp", "chisq", "pois", "k"}, p : {<<q>> : q \in Halves}]
  \cup [f : {"triangle"}, p : Halves \X Halves \X Halves]
Init == \E c \in Cases : f = c.f /\ p = c.p
Next == UNCHANGED <<f, p>>

RECURSIVE Choose(_, _), Pow(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Pow(q, k) == IF k = 0 THEN One ELSE Mul(q, Pow(q, k - 1))
Pmf(n, q) == [k \in 0..n |-> Mul(Num(Choose(n, k)), Mul(Pow(q, k), Pow(Sub(One, q), n - k)))]
Binomial == f = "binom" => LET n == p[1][1]  w == Pmf(n, p[2])  m == SumQ([k \in 0..n |-> Mul(Num(k), w[k])], 0..n) IN
    /\ SumQ(w, 0..n) = One
    /\ Norm(Mean(f, p)) = Norm(m)
    /\ Norm(Var(f, p)) = Norm(Sub(SumQ([k \in 0..n |-> Mul(Num(k * k), w[k])], 0..n), Sq(m)))
MeanInside == Valid(f, p) =>
    /\ Lower(f, p)[1] = "fin" => LessEq(<<Lower(f, p)[2], Lower(f, p)[3]>>, Mean(f, p))
    /\ Upper(f, p)[1] = "fin" => LessEq(Mean(f, p), <<Upper(f, p)[2], Upper(f, p)[3]>>)
    /\ Var(f, p)[1] >= 0
\* a bounded variable spreads at most half its range
Popoviciu == (Valid(f, p) /\ Lower(f, p)[1] = "fin" /\ Upper(f, p)[1] = "fin") =>
    LET r == Sub(<<Upper(f, p)[2], Upper(f, p)[3]>>, <<Lower(f, p)[2], Lower(f, p)[3]>>) IN
    LessEq(Mul(Num(4), Var(f, p)), Sq(r))
\* doubling a rate halves the mean and quarters the variance
RatesAreRates == (f \in {"gamma", "invgamma"} /\ Valid(f, p)) =>
    LET q == [p EXCEPT ![2] = Mul(Num(2), @)] IN
    Norm(Mul(Num(2), Mean(f, q))) = Norm(Mean(f, p)) /\ Norm(Mul(Num(4), Var(f, q))) = Norm(Var(f, p))
Special == /\ (f = "gamma" /\ p[1] = <<2, 2>>) => Norm(Mean(f, p)) = Norm(Mean("exp", <<p[2]>>)) /\ Norm(Var(f, p)) = Norm(Var("exp", <<p[2]>>))
           /\ (f = "gamma" /\ p[2] = <<1, 2>>) => Norm(Mean(f, p)) = Norm(Mean("chisq", <<Mul(Num(2), p[1])>>))
=============================================================================
