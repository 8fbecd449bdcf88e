----------------------------- MODULE ResampleMC -----------------------------
(***************************************************************************)
(* Stage M and G for C25: draw one member at a time with probability in    *)
(* proportion to its weight; the number of ways w counts the outcomes, so  *)
(* the shares are exact.  All populations are printed for the replay.      *)
(***************************************************************************)
EXTENDS Resample, Json, SequencesExt, FiniteSetsExt
CONSTANTS MaxLen, MaxW, Emitting
VARIABLES w, asked, sel

Weights == {<<"bad", 0>>} \cup {<<"w", n>> : n \in 0..MaxW}
Init == /\ w \in UNION {[1..n -> Weights] : n \in 1..MaxLen} /\ asked \in {0, 1, 3} /\ sel = <<>>
Next == /\ CanResample(w) /\ Len(sel) < Size(w, asked)
        /\ \E i \in Eligible(w) : sel' = Append(sel, i)
        /\ UNCHANGED <<w, asked>>
Done == Len(sel) = Size(w, asked)
Sound == Done /\ CanResample(w) => Right(w, asked, sel)
\* the fair bound never excludes an outcome of few draws that has a real chance
FairIsLoose == Done /\ Len(sel) > 0 /\ CanResample(w) /\ Total(w) <= 6 /\ Len(sel) <= 3 => Fair(w, sel) \/ \E i \in Eligible(w) : Share(w, i) * 6 <= Total(w)
AllShares == CanResample(w) => Total(w) = TotalOf(w, Eligible(w)) /\ \A i \in DOMAIN w : Share(w, i) > 0 <=> i \in Eligible(w)
Emit == Emitting /\ sel = <<>> => PrintT(<<"W", ToJson([w |-> w, asked |-> asked])>>)
=============================================================================
