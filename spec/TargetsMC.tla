------------------------------ MODULE TargetsMC ------------------------------
(* Stage M for C28: the reference distance meets the conditions on distances *)
EXTENDS Targets
VARIABLES d, y, z
Qs == {<<n, 2>> : n \in -4..4}
Data == {[form |-> "number", m |-> m, e |-> One, l |-> One, u |-> One] : m \in {q \in Qs : q[1] # 0}}
   \cup {[form |-> "error", m |-> m, e |-> e, l |-> One, u |-> One] : m \in {q \in Qs : q[1] # 0}, e \in {<<1, 10>>, <<1, 5>>, One}}
   \cup {x \in {[form |-> "range", m |-> m, e |-> One, l |-> a, u |-> b] : m \in Qs, a \in Qs, b \in Qs} : CanRead(x)}
Df == <<1, 10>>
Init == d \in Data /\ y \in Qs /\ z \in Qs
Next == UNCHANGED <<d, y, z>>
Zero == (Norm(Ref(d, Df, y)) = <<0, 1>>) = (Norm(y) = Norm(d.m))
Grows == /\ Less(DevAbs(d, y), DevAbs(d, z)) => Less(Ref(d, Df, y), Ref(d, Df, z))
         /\ (Norm(DevAbs(d, y)) = Norm(DevAbs(d, z))) => Norm(Ref(d, Df, y)) = Norm(Ref(d, Df, z))
Inverse == d.form = "error" => Norm(Mul(Num(2), Ref([d EXCEPT !.e = Mul(Num(2), @)], Df, y))) = Norm(Ref(d, Df, y))
Positive1 == ~Less(Ref(d, Df, y), <<0, 1>>) /\ Positive(Width(d, Df))
=============================================================================
