import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "we", "ie", "innov", "nis", "rs"]
MODES = [EVPOS, EVVEL, EVPOS | EVYAW, EVPOS | EVVEL | EVYAW, EVVEL | EVYAW, GPS | EVPOS, GPS | EVVEL, GPS | EVYAW, GPS | EVPOS | EVYAW, OF | EVPOS, OF | EVVEL | EVYAW, EVPOS | ROTEV, GPS | EVPOS | ROTEV, EVPOS | EVVEL]
EVF = [{"ev.on": 0}, {"ev.on": 0}, {"ev.on": 0}, {"ev.int": 600000}, {"ev.int": 390000}, {"ev.dn": 8}, {"ev.de": -30, "ev.dvn": 6}, {"ev.dvn": 8, "ev.dve": -5}, {"ev.dyaw": 1.2}]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    world(s, [modes], {x for x in ("gps", "flow", "rng", "ev", "tas", "aux") if rng.random() < 0.6} | {"ev"},
          reset_timeout_max=rng.choice([7000000, 4000000]), mag_fusion_type=rng.choice([0, 0, 0, 1, 3, 5]), gps_check_mask=rng.choice([0, 21]), vdist_sensor_type=rng.choice([0, 0, 3]))
    s.k("imu.dt", 10000, "imu.jit", 0)
    if rng.random() < 0.3:
        s.par(ev_delay_ms=rng.choice([350, 500, 600]))
    NORMAL["ev.int"] = rng.choice([33000, 50000, 100000])
    s.k("ev.int", NORMAL["ev.int"])
    s.call("gpshealth", 1000000)
    if rng.random() < 0.3:
        s.k("ev.on", 0)
    elif rng.random() < 0.4:
        s.k("ev.int", 700000)
    if rng.random() < 0.3:
        s.k("gps.on", 0)
    s.run(rng.choice([1000, 4000, 6000]))
    s.k("ev.on", 1)
    s.run(rng.choice([200, 1000, 4000]))
    s.k("ev.int", NORMAL["ev.int"])
    if rng.random() < 0.8:
        takeoff(s, 1.0, 2000)
    s.k("gps.on", int("gps" in s.present))
    t = 0
    while t < ms:
        x = rng.random()
        if rng.random() < 0.6:
            s.k("vn", round(rng.uniform(-3, 3), 2), "ve", round(rng.uniform(-3, 3), 2), "yawrate", round(rng.uniform(-0.3, 0.3), 2))
        if x < 0.65:
            f = rng.choice(EVF)
            s.k(*sum(([a, b] for a, b in f.items()), []))
            d = rng.choice([300, 1000, 3500, 4500, 7500, 9000])
            s.run(d)
            if rng.random() < 0.75:
                s.k(*sum(([a, NORMAL.get(a, 1 if a == "ev.on" else 0)] for a in f), []))
            else:
                s.k("ev.on", 1)          # a shift stays: vision moved its frame
            t += d
        elif x < 0.85:
            n = rng.choice([n for n in ("gps", "gps", "flow", "mag") if n == "mag" or n in s.present])
            d = rng.choice([1000, 5000, 12000])
            fault(s, n, d)
            t += d
        d = rng.choice([300, 2000, 4000, 6000])
        s.run(d)
        t += d
    return s.lines


def main():
    c = Check("C17")
    c.exhaustive("EvAidingMC", "EvAidingMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 30000, i) for i in range(280 if c.thorough else 28)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "EvAidingTrace", 28 if c.thorough else 7, args=GROUPS)
    c.finish(scripts=len(sc))


main()
