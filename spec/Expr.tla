------------------------------- MODULE Expr -------------------------------
(***************************************************************************)
(* Expressions of definition lines: syntax trees [op, v, n, a] and their   *)
(* exact value over the rationals <<num, den>>, den > 0.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Undef == <<0, 0>>                      \* no value
Abs1(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(p) == IF p[2] = 0 THEN Undef
           ELSE LET s == IF p[2] < 0 THEN -1 ELSE 1
                    g == Gcd(Abs1(p[1]), Abs1(p[2]))
                IN <<(s * p[1]) \div g, (s * p[2]) \div g>>
Whole(i) == <<i, 1>>
Def(p) == p[2] # 0
Add(p, q) == Norm(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
Neg(p) == <<-p[1], p[2]>>
Sub(p, q) == Add(p, Neg(q))
Mul(p, q) == Norm(<<p[1] * q[1], p[2] * q[2]>>)
Div(p, q) == IF q[1] = 0 THEN Undef ELSE Norm(<<p[1] * q[2], p[2] * q[1]>>)
Lt(p, q) == p[1] * q[2] < q[1] * p[2]
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
Floor(p) == Whole(p[1] \div p[2])
Ceil(p) == Whole(-((-p[1]) \div p[2]))
AbsQ(p) == <<Abs1(p[1]), p[2]>>
Bool(c) == Whole(IF c THEN 1 ELSE 0)    \* a comparison counts as one or zero
True0(p) == p[1] # 0
FloorDiv(p, q) == IF q[1] = 0 THEN Undef ELSE Floor(Div(p, q))
Mod(p, q) == IF q[1] = 0 THEN Undef ELSE Sub(p, Mul(q, FloorDiv(p, q)))
RECURSIVE Pow(_, _)
Pow(p, k) == IF k = 0 THEN Whole(1) ELSE Mul(p, Pow(p, k - 1))

\* the variables of an expression
RECURSIVE VarsOf(_)
VarsOf(e) == (IF e.op = "var" THEN {e.n} ELSE {}) \cup UNION {VarsOf(e.a[i]) : i \in DOMAIN e.a}

\* the functions registered by the harness: tw(x) = 2x+1, lin(x, y) = 2x+3y
RECURSIVE Eval(_, _)
Eval(e, env) ==
  LET x == Eval(e.a[1], env)
      y == Eval(e.a[2], env)
      z == Eval(e.a[3], env)
      w == Eval(e.a[4], env)
      one == Def(x)  two == Def(x) /\ Def(y)
      If1(c, r) == IF c THEN r ELSE Undef
  IN CASE e.op = "num" -> Whole(e.v)
       [] e.op = "var" -> IF e.n \in DOMAIN env THEN env[e.n] ELSE Undef
       [] e.op = "add" -> IF two THEN Add(x, y) ELSE Undef
       [] e.op = "sub" -> IF two THEN Sub(x, y) ELSE Undef
       [] e.op = "mul" -> IF two THEN Mul(x, y) ELSE Undef
       [] e.op = "div" -> IF two THEN Div(x, y) ELSE Undef
       [] e.op = "neg" -> IF one THEN Neg(x) ELSE Undef
       [] e.op = "pow" -> IF one THEN Pow(x, e.v) ELSE Undef            \* x ** v and pow(x, v)
       [] e.op = "abs" -> IF one THEN AbsQ(x) ELSE Undef
       [] e.op = "floor" -> IF one THEN Floor(x) ELSE Undef
       [] e.op = "ceil" -> IF one THEN Ceil(x) ELSE Undef
       [] e.op = "min" -> IF two THEN (IF Lt(y, x) THEN y ELSE x) ELSE Undef
       [] e.op = "max" -> IF two THEN (IF Lt(x, y) THEN y ELSE x) ELSE Undef
       [] e.op = "iflt" -> IF two /\ Def(z) /\ Def(w) THEN (IF Lt(x, y) THEN z ELSE w) ELSE Undef    \* ifelse(x < y, z, w)
       [] e.op = "ifge" -> IF two /\ Def(z) /\ Def(w) THEN (IF Le(y, x) THEN z ELSE w) ELSE Undef
       [] e.op = "step" -> IF two /\ Def(z) /\ Def(w) THEN (IF Lt(x, y) THEN z ELSE w) ELSE Undef    \* step(x, y, z, w)
       \* words between blanks; these do not look at what they do not need
       [] e.op = "and" -> IF one THEN (IF True0(x) THEN y ELSE x) ELSE Undef
       [] e.op = "or" -> IF one THEN (IF True0(x) THEN x ELSE y) ELSE Undef
       [] e.op = "not" -> IF one THEN Bool(~True0(x)) ELSE Undef
       [] e.op = "if" -> IF one THEN (IF True0(x) THEN y ELSE z) ELSE Undef           \* y if x else z
       [] e.op = "in" -> IF two /\ Def(z) THEN Bool(x = y \/ x = z) ELSE Undef          \* x in (y, z)
       [] e.op = "lt" -> IF two THEN Bool(Lt(x, y)) ELSE Undef
       [] e.op = "le" -> IF two THEN Bool(Le(x, y)) ELSE Undef
       [] e.op = "eq" -> IF two THEN Bool(x = y) ELSE Undef
       [] e.op = "ne" -> IF two THEN Bool(x # y) ELSE Undef
       [] e.op = "chain" -> IF two THEN (IF ~Lt(x, y) THEN Bool(FALSE)               \* x < y <= z
                                         ELSE IF Def(z) THEN Bool(Le(y, z)) ELSE Undef) ELSE Undef
       [] e.op = "fdiv" -> IF two THEN FloorDiv(x, y) ELSE Undef
       [] e.op = "mod" -> IF two THEN Mod(x, y) ELSE Undef
       [] e.op = "tw" -> IF one THEN Add(Mul(Whole(2), x), Whole(1)) ELSE Undef
       [] e.op = "lin" -> IF two THEN Add(Mul(Whole(2), x), Mul(Whole(3), y)) ELSE Undef
       \* functions that have no rational value, in combinations that do
       [] e.op = "logexp" -> x                                           \* log(exp(x))
       [] e.op = "sqrtsq" -> IF one THEN AbsQ(x) ELSE Undef              \* sqrt(x ** 2)
       [] e.op = "hypot" -> IF one THEN Mul(Whole(5), AbsQ(x)) ELSE Undef  \* hypot(3x, 4x)
       [] e.op = "logis" -> x                                            \* logit(expit(x))
       [] e.op = "trig" -> IF one THEN Whole(1) ELSE Undef                 \* sin(x)**2 + cos(x)**2
       [] e.op = "tan" -> IF one THEN Whole(0) ELSE Undef                  \* tan(x) - sin(x)/cos(x)
       [] e.op = "expadd" -> IF two THEN Whole(1) ELSE Undef               \* exp(x + y) / (exp(x) * exp(y))
       [] e.op = "erf" -> IF one THEN Whole(0) ELSE Undef                  \* erf(x) + erf(-x)
       [] OTHER -> Undef
=============================================================================
