-------------------------- MODULE ImuDownSamplerMC --------------------------
EXTENDS ImuDownSampler, TLC
CONSTANTS Dts, MaxRx
RotX == <<RS, 0, 0, 0, 0, -RS, 0, RS, 0>>
RotZ == <<0, -RS, 0, RS, 0, 0, 0, 0, RS>>
Raws == {[ta |-> d, tv |-> d, clip |-> <<c, FALSE, FALSE>>, R |-> r, dv |-> <<0, 0, 0>>, t |-> 0] :
           d \in Dts, c \in BOOLEAN, r \in {RotX, RotZ}}
Next == \E raw \in Raws : /\ sum.rx + raw.ta <= MaxRx
          /\ LET a == Accum(IF retr THEN Zero ELSE acc, raw) IN
             \E g \in BOOLEAN : Update(raw, Due(a), g)
MCSpec == Init /\ [][Next]_imuvars
(* no time is lost or invented *)
Conserved == sum.rx = sum.tx + (IF retr THEN 0 ELSE acc.ta)
(* the adjustment is the integrated overshoot, so the mean period tends to the target *)
MeanPeriod == ~sum.clamped => Abs(100 * adj - (sum.tx - sum.n * Target)) <= 51 * sum.n
AdjBounded == adj >= -(Target \div 2) /\ adj <= Target \div 2
(* rotations stay rotations *)
IsRot == MM(acc.R, MT(acc.R)) = I3
View == <<acc, adj, retr, sum.rx - sum.tx, sum.clamped, sum.tx - sum.n * Target>>
=============================================================================
