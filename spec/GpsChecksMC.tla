----------------------------- MODULE GpsChecksMC -----------------------------
(* All sequences of messages over a small set of qualities, motion states and spacings. *)
EXTENDS GpsChecks, Sequences, TLC
CONSTANTS Depth, Masks, Health
P == [req_nsats |-> 6, req_pdop |-> 2500, req_hacc |-> 5000, req_vacc |-> 8000, req_sacc |-> 1000, req_hdrift |-> 300, req_vdrift |-> 500]
Base == [ns |-> 6, pdop |-> 2500, eph |-> 5000, epv |-> 8000, sacc |-> 1000, dn |-> 0, de |-> 0, alt |-> 100000, vn |-> 0, ve |-> 0, vd |-> 0, sv |-> 0]
Msgs == {Base, [Base EXCEPT !.ns = 5], [Base EXCEPT !.sacc = 1001], [Base EXCEPT !.dn = 100000, !.vn = 5000], [Base EXCEPT !.alt = 300000], [Base EXCEPT !.vd = 30000]}
VARIABLES G, mask, hist, good, now
vars == <<G, mask, hist, good, now>>
Par == P @@ [gps_check_mask |-> mask]
Init == G = GInit /\ mask \in Masks /\ hist = <<>> /\ good = FALSE /\ now = 0
Msg == \E m \in Msgs, dt \in {1000000, 4000000}, mo \in {"air", "rest", "moving"} :
  LET t == now + dt
      air == mo = "air"  rest == mo = "rest"
      x == m @@ [ti |-> t, air |-> air, rest |-> rest]
      H == Take(G, x, Par)  f == Failed(H, x, Par)  R == Record(H, f, t, Par)
  IN /\ Len(hist) < Depth
     /\ G' = R /\ now' = t /\ good' = Good(R, t, Health)
     /\ hist' = Append(hist, [t |-> t, f |-> f, air |-> air, rest |-> rest, m |-> m])
     /\ UNCHANGED mask
Next == Msg
Spec == Init /\ [][Next]_vars
Bad(e) == \E c \in e.f : Selected(Par, c)
(* good exactly when messages have come, and no selected check has failed, for longer than the health time *)
Sustained == good <=> (Len(hist) > 0 /\ hist[1].t + Health < now /\ \A k \in 1..Len(hist) : hist[k].t + Health >= now => ~Bad(hist[k]))
Restart == (Len(hist) > 0 /\ Bad(hist[Len(hist)])) => ~good
AirClear == (Len(hist) > 0 /\ hist[Len(hist)].air) => hist[Len(hist)].f \cap Drifts = {}
Kept == \A k \in 2..Len(hist) : (~hist[k].air /\ ~hist[k].rest) => hist[k].f \cap Drifts = hist[k - 1].f \cap Drifts
Exact == \A k \in 1..Len(hist) : LET e == hist[k] IN /\ ("nsats" \in e.f <=> e.m.ns < 6) /\ ("sacc" \in e.f <=> e.m.sacc > 1000) /\ "pdop" \notin e.f
Limits == AbsI(G.fn) <= 10 * 300 * 100 /\ AbsI(G.fd) <= 10 * 500 * 100 /\ AbsI(G.vd) <= 10 * 500 * 100
=============================================================================
