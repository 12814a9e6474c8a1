---------------------------- MODULE DeadReckonMC ----------------------------
(* Every history of aiding selection and of accepted measurements; 0.1 s per step. *)
EXTENDS DeadReckon, TLC
CONSTANTS Wait, Valid, Most
VARIABLES vp, of, wind, air, a, aid, fake, out
vars == <<vp, of, wind, air, a, aid, fake, out>>
(* a: ages of the last accepted vp, of, airspeed, sideslip; aid: age *)
Old(x) == IF x >= Most THEN Most ELSE x + 1
None == 99
Init == vp = FALSE /\ of = FALSE /\ wind = FALSE /\ air = FALSE /\ a = [vp |-> Most, of |-> Most, ar |-> Most, be |-> Most] /\ aid = None /\ fake = Most
        /\ out = [drift |-> TRUE, syn |-> TRUE, valid |-> FALSE, anew |-> FALSE]
Step ==
  \E v, o, w, f1, f2, f3, f4 \in BOOLEAN :
    /\ vp' = v /\ of' = o /\ wind' = (w /\ (wind \/ f3 \/ f4)) /\ air' = ((w /\ f3 /\ f4) \/ (air /\ w))
    /\ a' = [vp |-> IF v /\ f1 THEN 0 ELSE Old(a.vp), of |-> IF o /\ f2 THEN 0 ELSE Old(a.of), ar |-> IF w /\ f3 THEN 0 ELSE Old(a.ar), be |-> IF w /\ f4 THEN 0 ELSE Old(a.be)]
    /\ LET drift == ~Constrained([vp |-> v, vpLast |-> 0 - a'.vp, of |-> o, ofLast |-> 0 - a'.of, wind |-> wind', arLast |-> 0 - a'.ar, beLast |-> 0 - a'.be], Wait, 0)
           aged == IF aid = None THEN Never - 1000 ELSE 0 - Old(aid)
           ai == IF drift THEN aged ELSE Aid(aged, FALSE, Wait, 0)
           syn == Synthetic((IF v THEN {"gps"} ELSE {}) \cup (IF o THEN {"opt_flow"} ELSE {}), air')
       IN /\ aid' = (IF ~drift THEN Wait ELSE IF aid = None THEN None ELSE Old(aid))
          /\ fake' = IF syn THEN 0 ELSE Old(fake)
          /\ out' = [drift |-> drift, syn |-> syn, valid |-> LocalValid(IF aid' = None THEN TRUE ELSE Over(ai, Valid, 0), syn), anew |-> syn /\ ~out.syn]
Spec == Init /\ [][Step]_vars
(* a valid position has been constrained recently, and something aids *)
Sound == out.valid => (~out.syn /\ (\E k \in {"vp", "of", "ar"} : a[k] <= Wait + Valid + 1))
Aided == ~out.drift => \E k \in {"vp", "of", "ar"} : a[k] < Wait
Lost == (a.vp > Valid /\ a.of > Valid /\ (a.ar > Valid \/ a.be > Valid) /\ aid = Most) => ~out.valid
Fresh == (vp /\ a.vp < Wait) => (~out.drift /\ out.valid)
Fake == out.syn => (~vp /\ ~of)
=============================================================================
