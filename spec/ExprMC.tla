------------------------------- MODULE ExprMC -------------------------------
(* Stage M and G for C06/C07: all expressions of depth two over few leaves.  *)
EXTENDS Expr, Json, SequencesExt, FiniteSetsExt
CONSTANTS Wide, Deep
VARIABLE e

N(o, as, v, nm) == [op |-> o, v |-> v, n |-> nm, a |-> as]
Leaves0 == {N("num", <<>>, 0, ""), N("num", <<>>, 2, ""), N("num", <<>>, 3, ""), N("var", <<>>, 0, "x"), N("var", <<>>, 0, "y")}
One == {"not", "neg", "abs", "floor", "ceil", "tw", "logexp", "sqrtsq", "hypot", "logis", "trig", "tan", "erf"}
Two == {"add", "sub", "mul", "div", "min", "max", "lin", "expadd", "and", "or", "lt", "le", "eq", "ne", "fdiv", "mod"}
Three == {"if", "in", "chain"}
Four == {"iflt", "ifge", "step"}
OneOf(S) == {N(o, <<p>>, 0, "") : o \in One, p \in S} \cup {N("pow", <<p>>, v, "") : p \in S, v \in {0, 2, 3}}
TwoOf(S, T) == {N(o, <<p, q>>, 0, "") : o \in Two, p \in S, q \in T}
FourOf(S, T) == {N(o, <<p, q, r, s>>, 0, "") : o \in Four, p \in S, q \in T, r \in S, s \in T}
ThreeOf(S, T) == {N(o, <<p, q, r>>, 0, "") : o \in Three, p \in S, q \in T, r \in T}
X == N("var", <<>>, 0, "x")
E1 == OneOf(Leaves0) \cup TwoOf(Leaves0, Leaves0) \cup FourOf({X, N("num", <<>>, 2, "")}, Leaves0) \cup ThreeOf(Leaves0, Leaves0)
Conds == {N("lt", <<X, N("num", <<>>, 2, "")>>, 0, ""), N("not", <<X>>, 0, ""), N("and", <<X, N("var", <<>>, 0, "y")>>, 0, "")}
E3 == ThreeOf(Conds, OneOf({X}) \cup {N("div", <<N("num", <<>>, 3, ""), X>>, 0, ""), N("num", <<>>, 3, "")})
E2 == IF Wide THEN OneOf(E1) \cup TwoOf(E1, {X, N("num", <<>>, 2, "")}) \cup TwoOf({X}, E1)
      ELSE LET S == OneOf(Leaves0) \cup TwoOf(Leaves0, Leaves0) IN OneOf(S) \cup TwoOf(S, {X})
Init == e \in IF Deep THEN Leaves0 \cup E1 \cup E2 \cup E3 ELSE Leaves0 \cup E1 \cup E3
Next == UNCHANGED e
Emit == PrintT(<<"E", ToJson(e)>>)

Vals == {<<0, 1>>, <<2, 1>>, <<-3, 2>>}
Envs == [{"x", "y"} -> Vals]
Without(env, S) == [n \in DOMAIN env \ S |-> env[n]]
RECURSIVE Strict(_)
Strict(t) == t.op \notin {"and", "or", "if", "chain"} /\ \A i \in DOMAIN t.a : Strict(t.a[i])
\* a missing parent never yields a value (of an expression which looks at all of them)
MissingIsUndef == Strict(e) => \A env \in {[m \in {"x", "y"} |-> <<2, 1>>]} : \A n \in VarsOf(e) : Eval(e, Without(env, {n})) = Undef
\* laws of the words
B(o, as) == N(o, as, 0, "")
Truth(env, t) == Eval(B("not", <<B("not", <<t>>)>>), env)
Few == {[x |-> <<0, 1>>, y |-> <<-3, 2>>], [x |-> <<2, 1>>, y |-> <<0, 1>>], [x |-> <<-3, 2>>, y |-> <<2, 1>>]}
Words == \A env \in Few :
  LET y == N("var", <<>>, 0, "y")  d == Def(Eval(e, env)) IN
  /\ Truth(env, B("and", <<e, y>>)) = Truth(env, B("not", <<B("or", <<B("not", <<e>>), B("not", <<y>>)>>)>>))
  /\ Eval(B("if", <<e, e, y>>), env) = Eval(B("or", <<e, y>>), env)
  /\ Eval(B("if", <<e, y, e>>), env) = Eval(B("and", <<e, y>>), env)
  /\ Eval(B("le", <<e, y>>), env) = Eval(B("or", <<B("lt", <<e, y>>), B("eq", <<e, y>>)>>), env)
  /\ Eval(B("ne", <<e, y>>), env) = Eval(B("not", <<B("eq", <<e, y>>)>>), env)
  /\ d /\ env["y"] # <<0, 1>> => /\ Eval(B("add", <<B("mul", <<B("fdiv", <<e, y>>), y>>), B("mod", <<e, y>>)>>), env) = Eval(e, env)
                                /\ LET m == Eval(B("mod", <<e, y>>), env) IN
                                   Le(<<0, 1>>, Div(m, env["y"])) /\ Lt(Div(m, env["y"]), <<1, 1>>)
\* only the parents matter
OnlyParents == \A env \in Envs : Eval(e, Without(env, {"x", "y"} \ VarsOf(e))) = Eval(e, env)
\* reduced fractions with a positive denominator
Reduced == \A env \in Envs : LET r == Eval(e, env) IN r = Undef \/ (r[2] > 0 /\ Gcd(Abs1(r[1]), r[2]) = 1)
=============================================================================
