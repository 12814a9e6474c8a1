----------------------------- MODULE MagModesMC -----------------------------
(* Every history of flight, alignment, faults, field disturbance, other yaw sources and GNSS; half a second per step. *)
EXTENDS MagModes, TLC
VARIABLES modes, type, fault, yaw, other, air, high, aligned, req, seen, gps, inh, decl
vars == <<modes, type, fault, yaw, other, air, high, aligned, req, seen, gps, inh, decl>>
Init == modes = {} /\ type \in {0, 1, 2, 4, 5} /\ fault = FALSE /\ yaw = FALSE /\ other = FALSE /\ air = FALSE /\ high = FALSE /\ aligned = FALSE /\ req = FALSE /\ seen = 9 /\ gps = FALSE /\ inh = FALSE /\ decl \in BOOLEAN
Step ==
  \E ready, obs, dist, low, o, f, gp \in BOOLEAN :
   \E a \in BOOLEAN, y \in {yaw, TRUE} :
    /\ air' = a /\ high' = (a /\ (high \/ ~low)) /\ yaw' = y /\ UNCHANGED <<type, decl>>
    /\ fault' = (fault \/ (f /\ yaw /\ air))
    /\ LET runs == type < Never /\ ~fault /\ y /\ ~other /\ ready          \* the magnetometer is looked at
           al0 == aligned /\ (a \/ type >= Never)
           want == runs /\ (req \/ (a /\ ~al0 /\ high'))
           reset == want /\ ~inh
           ok == reset /\ (~dist)
           al == IF reset /\ a THEN ok ELSE al0
           sn == IF runs /\ obs THEN 0 ELSE IF seen >= 9 THEN 9 ELSE seen + 1
       IN /\ aligned' = al /\ req' = ((want /\ ~ok) \/ (req /\ ~runs) \/ (other /\ ~o)) /\ seen' = sn
          /\ inh' = IF runs THEN dist \/ (type = Indoor /\ ~gps) ELSE inh
          /\ modes' = TakenOver(Select(modes, [type |-> type, fault |-> fault, yaw |-> y, other |-> other, ready |-> ready, aligned |-> al, suitable |-> sn < 4, gps |-> gps, decl |-> decl]), o /\ ~other)
    /\ other' = (o /\ y) /\ gps' = (gp /\ y)
Spec == Init /\ [][Step]_vars
One == ~({"mag_hdg", "mag_3D"} \subseteq modes)
DecWith3D == "mag_dec" \in modes => "mag_3D" \in modes
Configured == /\ type = Never => modes = {}
              /\ "mag_3D" \in modes => type \in {Auto, ThreeAxes}
              /\ type = ThreeAxes => "mag_hdg" \notin modes
Exclusive == (other /\ modes # {}) => FALSE
Aligned == modes # {} => yaw
(* a fault is acted upon at the next step *)
Faulty == [][fault => modes' = {}]_vars
(* three axes in the automatic mode begin only in flight *)
InFlight == [][(type = Auto /\ "mag_3D" \in modes' \ modes) => (air' /\ aligned' /\ seen' < 4)]_vars
Back == [][(type = Auto /\ "mag_3D" \in modes' /\ modes' # modes) => aligned']_vars
AlignedHigh == aligned => (type >= Never \/ air)
Drift == [][("mag_3D" \in modes' \ modes /\ ~gps) => "mag_dec" \in modes']_vars
=============================================================================
