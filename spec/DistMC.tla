------------------------------- MODULE DistMC -------------------------------
(* Life of a distribution object; the stated laws are laws, and the cdf    *)
(* estimate is within its tolerance, on a grid of points.                  *)
EXTENDS Dist, TLC
CONSTANT N
\* ACTIONS Make Query Sample
VARIABLES obj, x, val
vars == <<obj, x, val>>
Q(i) == FxQ(i, 8)
Means == {FxI(0), FxQ(-5, 2)}
Vars == {FxQ(1, 4), FxI(1), FxI(9)}
Rates == {FxQ(1, 3), FxI(1), FxI(5)}
Init == obj = None /\ x = -N /\ val = <<>>
Make == /\ obj.kind = "none"
        /\ \/ \E m \in Means, v \in Vars : obj' = Made("new", <<m, v>>)
           \/ \E m \in Means, v \in Vars : obj' = Made("from_std_dev", <<m, FxSqrt(v)>>)
           \/ obj' = Made("default", <<>>)
           \/ \E r \in Rates : obj' = Made("exp-new", <<r>>) /\ TRUE
           \/ obj' = Made("exp-default", <<>>)
        /\ x' = (IF obj'.kind = "exponential" THEN 0 ELSE -N)
        /\ val' = <<>>
Query == obj.kind # "none" /\ x < N /\ x' = x + 1 /\ val' = <<Pdf(obj, Q(x)), LogPdf(obj, Q(x)), Cdf(obj, Q(x))>> /\ UNCHANGED obj
Sample == obj.kind # "none" /\ \E n \in 0..2 : val' = <<Sampled(obj, FxI(n))>> /\ UNCHANGED <<obj, x>>
Next == Make \/ Query \/ Sample
Spec == Init /\ [][Next]_vars

Live == obj.kind # "none"
H == FxDiv(FxOne, Pow2(60))
At == Q(x)
Near == obj.kind = "exponential" \/ FxLe(Z2(obj, At), FxI(60))
Density == (Live /\ Near) => FxRel(FxDiv(FxSub(Cdf(obj, FxAdd(At, H)), Cdf(obj, FxSub(At, H))), FxMul(FxI(2), H)), Pdf(obj, At), Eps(20), Eps(20))
Log == Live => FxRel(FxExp(LogPdf(obj, At)), Pdf(obj, At), Eps(20), Eps(40))
Law == Live => InUnit(Cdf(obj, At))
Estimate == (Live /\ obj.kind = "gaussian") =>
   /\ FxAbsClose(PolyaCdf(Z(obj, At)), Cdf(obj, At), CdfTol)
   /\ OkSym(PolyaCdf(Z(obj, At)), PolyaCdf(FxNeg(Z(obj, At))))
SamePath == [][obj.kind # "none" => obj' = obj]_vars
\* both constructors give one law
SameLaw == (Live /\ obj.kind = "gaussian") =>
   \E v \in Vars : FxAbsClose(obj.var, v, Eps(30))
=============================================================================
