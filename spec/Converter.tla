----------------------------- MODULE Converter -----------------------------
(***************************************************************************)
(* Converters between the unit interval and a domain (C22).                *)
(* Anchors: fit/converter.py.                                              *)
(* On the design level logarithms are to the base 2 and the unit interval  *)
(* is the dyadic grid, where every conversion is exact: a number is <<n,d>>*)
(* a value of the domain is <<"fin", n, d>> or an infinity.                *)
(***************************************************************************)
EXTENDS Dist

Domains == {"FF", "FI", "IF", "II"}
Shape(lo, up) == IF lo[1] = "inf" THEN (IF up[1] = "inf" THEN "II" ELSE "IF") ELSE (IF up[1] = "inf" THEN "FI" ELSE "FF")
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE 32
\* k with q = 2^-k, for the powers of two in the unit interval
Log2(q) == CHOOSE k \in 0..5 : q[1] * Pow2(k) = q[2]
IsPow(q) == \E k \in 0..5 : q[1] * Pow2(k) = q[2]
FinV(q) == <<"fin", q[1], q[2]>>
\* domain: [lo, up, loc, sc], all rationals where finite
Ratio(b) == <<b[2], b[3]>>
ToValue(dm, u) ==
    LET s == Shape(dm.lo, dm.up) IN
    CASE s = "FF" -> FinV(Add(Ratio(dm.lo), Mul(u, Sub(Ratio(dm.up), Ratio(dm.lo)))))
      [] s = "FI" -> IF u = One THEN PlusInf ELSE FinV(Add(Ratio(dm.lo), Mul(Num(Log2(Sub(One, u))), dm.sc)))
      [] s = "IF" -> IF u[1] = 0 THEN MinusInf ELSE FinV(Sub(Ratio(dm.up), Mul(Num(Log2(u)), dm.sc)))
      [] s = "II" -> IF u = One THEN PlusInf ELSE IF u[1] = 0 THEN MinusInf
                     ELSE IF Less(<<1, 2>>, u) THEN FinV(Add(dm.loc, Mul(Num(Log2(Mul(Num(2), Sub(One, u)))), dm.sc)))
                     ELSE FinV(Sub(dm.loc, Mul(Num(Log2(Mul(Num(2), u))), dm.sc)))
\* the points of the unit interval where the conversion is exact
Exact(s) == LET G == {Norm(<<n, 32>>) : n \in 0..32} IN
    CASE s = "FF" -> G
      [] s = "FI" -> {u \in G : u = One \/ IsPow(Sub(One, u))}
      [] s = "IF" -> {u \in G : u[1] = 0 \/ IsPow(u)}
      [] s = "II" -> {u \in G : u = One \/ u[1] = 0 \/ (Less(<<1, 2>>, u) /\ IsPow(Mul(Num(2), Sub(One, u))))
                                \/ (LessEq(u, <<1, 2>>) /\ IsPow(Mul(Num(2), u)))}
LessV(a, b) == CASE a = MinusInf -> b # MinusInf [] b = PlusInf -> a # PlusInf
                 [] a = PlusInf -> FALSE [] b = MinusInf -> FALSE
                 [] OTHER -> Less(Ratio(a), Ratio(b))
\* the four conditions on a converter c, a function from numbers to values
Increasing(c) == \A u, v \in DOMAIN c : Less(u, v) => LessV(c[u], c[v])
WithinV(c, lo, up) == \A u \in DOMAIN c : ~LessV(c[u], lo) /\ ~LessV(up, c[u])
EndsMeet(c, lo, up) == c[<<0, 1>>] = lo /\ c[<<1, 1>>] = up
OneToOne(c) == \A u, v \in DOMAIN c : c[u] = c[v] => u = v
=============================================================================
