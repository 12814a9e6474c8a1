------------------------------ MODULE GpsChecks ------------------------------
(* GNSS quality: which checks a message fails, and when GNSS is good.
   Times in us; speeds 1e-5 m/s; requirements, accuracies and dilution 1e-3; displacements 1e-4 m; altitudes mm. *)
EXTENDS Integers
AbsI(x) == IF x < 0 THEN -x ELSE x
Lim(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
Within(lo, x, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Never == -1000000                                   \* clock offset: no message before
ISqrt(n) == LET RECURSIVE F(_, _)
                F(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN F(m, hi) ELSE F(lo, m)
            IN IF n <= 0 THEN 0 ELSE F(1, 46341)
(* a * ms / 10000 without overflow for |a| <= 2e6, 0 < ms <= 10000 *)
Part(a, ms) == LET b == AbsI(a) r == (b \div 100) * ms IN (IF a < 0 THEN -1 ELSE 1) * ((r + (((b % 100) * ms) \div 100) + 50) \div 100)
(* displacement (1e-4 m) over ms, limited to lim (1e-5 m/s) *)
Speed(x, ms, lim) ==
  LET b == AbsI(x) sg == IF x < 0 THEN -1 ELSE 1
  IN IF b >= ((lim \div 100) * ms) \div 100 THEN sg * lim
     ELSE sg * Lim(((b * 100) \div ms) * 100 + (((((b * 100) % ms)) * 100) \div ms), lim)
Filter(f, x, ms) == f + Part(x - f, ms)
Lapse(G, t) == Within(1, (t - G.t) \div 1000, 10000)
Names == <<"fix", "nsats", "pdop", "hacc", "vacc", "sacc", "hdrift", "vdrift", "hspeed", "vspeed">>
Drifts == {"hdrift", "vdrift", "hspeed"}
GInit == [t |-> Never, seen |-> FALSE, alt |-> 0, fn |-> 0, fe |-> 0, fd |-> 0, vn |-> 0, ve |-> 0, vd |-> 0, kept |-> {}, lastFail |-> -1, h |-> 0, d |-> 0, s |-> 0, v |-> 0]
Norm(a, b) == 10 * ISqrt((a \div 10) * (a \div 10) + (b \div 10) * (b \div 10))
(* the checks that need no memory *)
Simple(m, p) == {c \in {"nsats", "pdop", "hacc", "vacc", "sacc"} :
                   CASE c = "nsats" -> m.ns < p.req_nsats [] c = "pdop" -> m.pdop > p.req_pdop [] c = "hacc" -> m.eph > p.req_hacc [] c = "vacc" -> m.epv > p.req_vacc [] OTHER -> m.sacc > p.req_sacc}
(* one message; m.air, m.rest: flight and motion state; m.sv: the filter's vertical velocity (1e-4 m/s); velocities 1e-3 m/s *)
Take(G, m, p) ==
  LET ms == Lapse(G, m.ti)
      lh == 1000 * p.req_hdrift     lv == 1000 * p.req_vdrift
      still == (~m.air) /\ m.rest
      dn == IF G.seen THEN m.dn ELSE 0
      de == IF G.seen THEN m.de ELSE 0
      dd == IF G.seen THEN 10 * Lim(G.alt - m.alt, 1000000) ELSE 0
      fn == Filter(G.fn, Speed(dn, ms, lh), ms)   fe == Filter(G.fe, Speed(de, ms, lh), ms)   fd == Filter(G.fd, Speed(dd, ms, lv), ms)
      vn == Filter(G.vn, Lim(100 * m.vn, lh), ms)  ve == Filter(G.ve, Lim(100 * m.ve, lh), ms)
      vd == Filter(G.vd, Lim(100 * m.vd - 10 * m.sv, lv), ms)
      h == IF still THEN Norm(fn, fe) ELSE G.h     d == IF still THEN AbsI(fd) ELSE G.d    s == IF still THEN Norm(vn, ve) ELSE G.s
      kept == IF m.air THEN {} ELSE IF ~still THEN G.kept
              ELSE {c \in Drifts : CASE c = "hdrift" -> h > 100 * p.req_hdrift [] c = "vdrift" -> d > 100 * p.req_vdrift [] OTHER -> s > 100 * p.req_hdrift}
  IN [G EXCEPT !.t = m.ti, !.seen = TRUE, !.alt = m.alt, !.fn = IF still THEN fn ELSE 0, !.fe = IF still THEN fe ELSE 0, !.fd = IF still THEN fd ELSE 0,
               !.vn = IF still THEN vn ELSE 0, !.ve = IF still THEN ve ELSE 0, !.vd = vd, !.kept = kept, !.h = h, !.d = d, !.s = s, !.v = AbsI(vd)]
(* failed checks after taking message m with result G *)
Failed(G, m, p) == Simple(m, p) \cup G.kept \cup (IF G.v > 100 * p.req_vdrift THEN {"vspeed"} ELSE {})
BitOf(c) == CASE c = "nsats" -> 1 [] c = "pdop" -> 2 [] c = "hacc" -> 4 [] c = "vacc" -> 8 [] c = "sacc" -> 16 [] c = "hdrift" -> 32 [] c = "vdrift" -> 64 [] c = "hspeed" -> 128 [] OTHER -> 256
Selected(p, c) == c = "fix" \/ (p.gps_check_mask \div BitOf(c)) % 2 = 1
(* failures recorded: the first message always counts as one *)
Record(G, failed, t, p) == IF G.lastFail = -1 \/ \E c \in failed : Selected(p, c) THEN [G EXCEPT !.lastFail = t] ELSE G
Good(G, t, health) == G.lastFail # -1 /\ G.lastFail + health < t
=============================================================================
