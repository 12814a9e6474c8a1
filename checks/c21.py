import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "cs", "nf", "we", "ie", "innov", "nis", "rs", "st", "truth", "valid", "origin"]
MODES = [GPS, GPS | OF, OF, EVPOS, EVVEL | EVYAW, GPS | EVPOS, GPS, GPS | EVVEL, 0, OF | EVPOS]
ALL = ["gps", "flow", "rng", "ev", "tas", "aux"]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    fw = i % 4 == 3
    s.present = set(ALL)
    world(s, [modes], ({x for x in ALL if rng.random() < 0.7} | ({"tas", "gps"} if fw else {"ev"} if modes & (EVPOS | EVVEL) else {"gps"})) - (set() if fw or rng.random() < 0.3 else {"tas"}),
          no_aid_timeout_max=rng.choice([1000000, 1000000, 500000, 2000000]), valid_timeout_max=rng.choice([5000000, 3000000, 8000000]), reset_timeout_max=rng.choice([7000000, 3000000]),
          mag_fusion_type=rng.choice([0, 0, 1]), gps_check_mask=0)
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", rng.choice([0, 1]))
    if fw:
        s.k("beta", int(i % 8 < 4), "fw", 1)
    s.call("gpshealth", 1000000)
    if rng.random() < 0.3:
        s.k("gps.on", 0)
    s.run(rng.choice([500, 4000, 7000]))
    s.k("gps.on", int("gps" in s.present))
    s.run(rng.choice([500, 4000]))
    if fw or rng.random() < 0.8:
        takeoff(s, 1.0, 2000)
    if fw:
        s.k("vn", 14)
    t = 0
    while t < ms:
        if rng.random() < 0.5:
            v = rng.choice([0, 0, 2, 14 if fw else 1])
            s.k("vn", v, "ve", round(rng.uniform(-1, 1), 1))
        x = rng.random()
        d = rng.choice([400, 1200, 3000, 6500, 9000, 11500, 24000])
        if x < 0.45:
            off = [n for n in ("gps", "ev", "flow", "aux") if n in s.present]
            if rng.random() < 0.3:
                off += [n for n in ("tas",) if n in s.present]
        elif x < 0.7:
            off = [n for n in s.present if rng.random() < 0.5]
        else:
            off = []
        f = {} if off else rng.choice([{"gps.dvn": 15, "gps.dn": 60}, {"ev.dn": 20, "ev.dvn": 9}, {"tas.scale": 3}, {"gps.eph": 30}, {"flow.off": 2}])
        for n in off:
            s.k(n + ".on", 0)
        s.k(*sum(([a, b] for a, b in f.items()), []))
        if d == 24000:
            s.k("vn", 0, "ve", 0)
        s.run(d)
        for n in off:
            s.k(n + ".on", 1)
        s.k(*sum(([a, {"tas.scale": 1, "gps.eph": 0.5}.get(a, 0)] for a in f), []))
        e = rng.choice([100, 400, 2500, 6000, 12000])
        s.run(e)
        t += d + e
    return s.lines


def main():
    c = Check("C21")
    c.exhaustive("DeadReckonMC", "DeadReckonMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 120000 if c.thorough else 40000, i) for i in range(280 if c.thorough else 28)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "DeadReckonTrace", 28 if c.thorough else 7, args=GROUPS)
    c.finish(scripts=len(sc))


main()
