---------------------------- MODULE ConverterMC ----------------------------
(* Stage M for C22: the design on every exact point of small domains.      *)
EXTENDS Converter
VARIABLES dm
Scales == {<<1, 2>>, <<1, 1>>, <<3, 1>>}
Locs == {<<-1, 1>>, <<0, 1>>, <<1, 4>>, <<2, 1>>}
Finite == {FinV(q) : q \in Locs}
Doms == {[lo |-> a, up |-> b, loc |-> c, sc |-> s] : a \in Finite \cup {MinusInf}, b \in Finite \cup {PlusInf}, c \in Locs, s \in Scales}
Init == dm \in {d \in Doms : LessV(d.lo, d.up)}
Next == UNCHANGED dm
Map == [u \in Exact(Shape(dm.lo, dm.up)) |-> LET v == ToValue(dm, u) IN IF v[1] = "fin" THEN FinV(Norm(Ratio(v))) ELSE v]
Good == LET c == Map  lo == IF dm.lo[1] = "fin" THEN FinV(Norm(Ratio(dm.lo))) ELSE dm.lo
            up == IF dm.up[1] = "fin" THEN FinV(Norm(Ratio(dm.up))) ELSE dm.up IN
        Increasing(c) /\ WithinV(c, lo, up) /\ EndsMeet(c, lo, up) /\ OneToOne(c)
Covers == Cardinality(Exact(Shape(dm.lo, dm.up))) >= 7
=============================================================================
