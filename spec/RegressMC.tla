------------------------------ MODULE RegressMC ------------------------------
(* Stage M for C30: the laws which hold between the definitions.            *)
EXTENDS Regress
CONSTANTS Big
VARIABLES b, x, rr, gs, vs

Pos == {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<2, 1>>} \cup (IF Big THEN {<<3, 4>>, <<3, 1>>, <<5, 2>>} ELSE {})
Empty == <<>>
Points == {<<<<Zero, Zero>>, <<One, Half>>>>, <<<<Zero, Zero>>, <<Half, One>>, <<Two, <<3, 1>>>>>>, <<<<Zero, Zero>>, <<One, <<1, 4>>>>, <<Two, Half>>, <<<<4, 1>>, Two>>>>}
Baselines == [tp : {"exp"}, a : Pos, k : {One}, pts : {Empty}] \cup [tp : {"weibull"}, a : Pos, k : {One, Two, Half}, pts : {Empty}]
        \cup [tp : {"empirical"}, a : {One}, k : {One}, pts : Points]
Coefs == {<<-1, 2>>, Zero, <<3, 4>>}
Regs == [tp : {"Boolean", "Continuous"}, cs : {<<c>> : c \in Coefs}] \cup [tp : {"Categorical"}, cs : {<<Zero, c>> : c \in Coefs}]
Init == /\ b \in Baselines /\ x \in Pos /\ rr \in Pos
        /\ gs \in {<<g, h>> : g \in Regs, h \in Regs}
        /\ vs \in {<<u, v>> : u \in {Zero, One}, v \in {Zero, One}}
Next == UNCHANGED <<b, x, rr, gs, vs>>

MaxHaz == b.pts[Len(b.pts)][2]
InRange(h) == b.tp # "empirical" \/ LessEq(h, MaxHaz)
\* the inverse undoes the cumulative hazard (where neither is read back as a square)
Undo == (CumPower(b) = 1 /\ InvPower(b) = 1 /\ InRange(x)) => Norm(Cum(b, InvCum(b, x))) = Norm(x)
UndoSquares == /\ CumPower(b) = 2 => Norm(Cum(b, InvCum(b, x))) = Norm(Sq(x))
               /\ InvPower(b) = 2 => Norm(InvCum(b, Cum(b, x))) = Norm(Sq(x))
Grows == \A y \in Pos : Less(x, y) => LessEq(Cum(b, x), Cum(b, y))
\* a risk ratio acts as more hazard: for shape one it is a factor of the rate
Faster == \A s \in Pos : (b.tp # "empirical" /\ Less(rr, s)) => Less(WaitMean(b, s), WaitMean(b, rr)) /\ Less(WaitVar(b, s), WaitVar(b, rr))
Proportional == (b.tp # "empirical" /\ Shape(b) = One) => WaitMean(b, rr) = WaitMean([b EXCEPT !.a = Mul(@, rr)], One)
SameAsExp == (b.tp = "weibull" /\ b.k = One) => LET e == [b EXCEPT !.tp = "exp"] IN
                Cum(b, x) = Cum(e, x) /\ WaitMean(b, rr) = WaitMean(e, rr) /\ WaitVar(b, rr) = WaitVar(e, rr)
ZeroEnds == b.tp # "empirical" => /\ ZeroMean(b, rr, Zero) = Norm(WaitMean(b, rr))
                                  /\ Norm(ZeroVar(b, rr, Zero)) = Norm(WaitVar(b, rr))
                                  /\ ZeroMean(b, rr, One)[1] = 0 /\ ZeroVar(b, rr, One)[1] = 0
Swapped == Predictor(gs, vs) = Predictor(<<gs[2], gs[1]>>, <<vs[2], vs[1]>>)
Reference == vs = <<Zero, Zero>> => Predictor(gs, vs) = Zero
=============================================================================
