-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* What the parameters of the built-in distributions mean (C26).           *)
(* Anchors: prob.py.  Rationals are pairs <<n, d>> with d > 0; a bound is  *)
(* <<"fin", n, d>>, <<"inf", 1, 1>> or <<"inf", -1, 1>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Norm(q) == LET g == Gcd(Abs(q[1]), q[2]) IN IF g = 0 THEN q ELSE <<q[1] \div g, q[2] \div g>>
Add(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Norm(<<a[1] * b[1], a[2] * b[2]>>)
Inv(a) == Q(a[2], a[1])
Div(a, b) == Mul(a, Inv(b))
One == <<1, 1>>
Num(k) == <<k, 1>>
Sq(a) == Mul(a, a)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
LessEq(a, b) == a[1] * b[2] <= b[1] * a[2]
Fin(q) == <<"fin", q[1], q[2]>>
MinusInf == <<"inf", -1, 1>>
PlusInf == <<"inf", 1, 1>>
Max2(a, b) == IF Less(a, b) THEN b ELSE a
Min2(a, b) == IF Less(a, b) THEN a ELSE b

\* admissible parameters, in the order of the parameters
Positive(q) == q[1] > 0
Whole(q) == q[1] % q[2] = 0
Valid(f, p) ==
    CASE f = "k" -> TRUE
      [] f = "gamma" -> Positive(p[1]) /\ Positive(p[2])
      [] f = "exp" -> Positive(p[1])
      [] f = "lnorm" -> p[1][1] >= 0 /\ Positive(p[2])
      [] f = "unif" -> Less(p[1], p[2])
      [] f = "chisq" -> Positive(p[1])
      [] f = "beta" -> Positive(p[1]) /\ Positive(p[2])
      [] f = "invgamma" -> Less(Num(2), p[1]) /\ Positive(p[2])
      [] f = "norm" -> Positive(p[2])
      [] f = "triangle" -> Less(Min2(p[1], Min2(p[2], p[3])), Max2(p[1], Max2(p[2], p[3])))
      [] f = "binom" -> Whole(p[1]) /\ Positive(p[1]) /\ p[2][1] >= 0 /\ LessEq(p[2], One)
      [] f = "pois" -> Positive(p[1])
      [] f = "cat" -> (\A i \in DOMAIN p : p[i][1] >= 0) /\ \E i \in DOMAIN p : p[i][1] > 0
Mean(f, p) ==
    CASE f = "k" -> p[1]
      [] f = "gamma" -> Div(p[1], p[2])
      [] f = "exp" -> Inv(p[1])
      [] f = "unif" -> Div(Add(p[1], p[2]), Num(2))
      [] f = "chisq" -> p[1]
      [] f = "beta" -> Div(p[1], Add(p[1], p[2]))
      [] f = "invgamma" -> Inv(Mul(p[2], Sub(p[1], One)))
      [] f = "norm" -> p[1]
      [] f = "triangle" -> Div(Add(p[1], Add(p[2], p[3])), Num(3))
      [] f = "binom" -> Mul(p[1], p[2])
      [] f = "pois" -> p[1]
      [] f = "lnorm" -> p[1]     \* read back as the logarithm of the mean on the log scale
Var(f, p) ==
    CASE f = "k" -> <<0, 1>>
      [] f = "gamma" -> Div(p[1], Sq(p[2]))
      [] f = "exp" -> Inv(Sq(p[1]))
      [] f = "unif" -> Div(Sq(Sub(p[2], p[1])), Num(12))
      [] f = "chisq" -> Mul(Num(2), p[1])
      [] f = "beta" -> LET s == Add(p[1], p[2]) IN Div(Mul(p[1], p[2]), Mul(Sq(s), Add(s, One)))
      [] f = "invgamma" -> Inv(Mul(Sq(p[2]), Mul(Sq(Sub(p[1], One)), Sub(p[1], Num(2)))))
      [] f = "norm" -> Sq(p[2])
      [] f = "triangle" -> LET a == p[1] b == p[2] c == p[3] IN
            Div(Sub(Add(Sq(a), Add(Sq(b), Sq(c))), Add(Mul(a, b), Add(Mul(a, c), Mul(b, c)))), Num(18))
      [] f = "binom" -> Mul(p[1], Mul(p[2], Sub(One, p[2])))
      [] f = "pois" -> p[1]
      [] f = "lnorm" -> p[2]     \* read back as the logarithm of the spread on the log scale
Lower(f, p) ==
    CASE f = "k" -> Fin(p[1])
      [] f \in {"gamma", "exp", "chisq", "beta", "invgamma", "lnorm", "binom", "pois"} -> Fin(<<0, 1>>)
      [] f = "unif" -> Fin(p[1])
      [] f = "norm" -> MinusInf
      [] f = "triangle" -> Fin(Min2(p[1], Min2(p[2], p[3])))
Upper(f, p) ==
    CASE f = "k" -> Fin(p[1])
      [] f \in {"gamma", "exp", "chisq", "invgamma", "lnorm", "norm", "pois"} -> PlusInf
      [] f = "beta" -> Fin(One)
      [] f = "unif" -> Fin(p[2])
      [] f = "triangle" -> Fin(Max2(p[1], Max2(p[2], p[3])))
      [] f = "binom" -> Fin(p[1])
Discrete(f) == f \in {"binom", "pois"}
TypeOf(f) == CASE Discrete(f) -> "Integer" [] f = "cat" -> "Category" [] OTHER -> "Double"
InSupport(f, p, x) ==
    /\ Lower(f, p)[1] = "fin" => Less(<<Lower(f, p)[2], Lower(f, p)[3]>>, x) \/ (Discrete(f) /\ x = <<Lower(f, p)[2], Lower(f, p)[3]>>)
    /\ Upper(f, p)[1] = "fin" => Less(x, <<Upper(f, p)[2], Upper(f, p)[3]>>) \/ (Discrete(f) /\ x = <<Upper(f, p)[2], Upper(f, p)[3]>>)
    /\ Discrete(f) => Whole(x)
OutSide(f, p, x) ==
    \/ Lower(f, p)[1] = "fin" /\ Less(x, <<Lower(f, p)[2], Lower(f, p)[3]>>)
    \/ Upper(f, p)[1] = "fin" /\ Less(<<Upper(f, p)[2], Upper(f, p)[3]>>, x)
    \/ Discrete(f) /\ ~Whole(x)

\* a number m counted in 1/S equals the rational q up to tol/S
Near(m, S, q, tol) == LET a == m * q[2]  b == q[1] * S IN a - b <= tol * q[2] /\ b - a <= tol * q[2]
RECURSIVE SumQ(_, _)
SumQ(f, S) == IF S = {} THEN <<0, 1>> ELSE LET x == CHOOSE y \in S : TRUE IN Add(f[x], SumQ(f, S \ {x}))
=============================================================================
