import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "we", "ie", "innov", "nis", "rs", "st", "terr", "truth", "origin", "hz"]
MODES = [GPS, GPS, GPS | EVYAW, EVPOS | EVYAW, GPS | GPSYAW, EVPOS, OF, EVVEL | EVPOS, EVVEL, 0]
TYPES = [0, 0, 1, 2, 4, 0, 0, 5]
STRONG = [{"mag.scale": 2.4}, {"mag.scale": 0.05}, {"mag.de": 1.1}, {"mag.dd": 0.9}, {"mag.scale": 1.55}, {"mag.de": 0.08}]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    bad = i % 5 == 0
    if bad:
        modes = GPS
    world(s, [modes], {x for x in ("gps", "flow", "rng", "ev") if rng.random() < 0.7} | ({"gps"} if modes & GPS else {"ev"}),
          mag_fusion_type=rng.choice([2, 4, 0]) if modes in (EVPOS, EVVEL, EVPOS | EVVEL) else 2 if bad and rng.random() < 0.5 else rng.choice(TYPES), check_mag_strength=rng.choice([0, 1, 1]), mag_declination_source=rng.choice([7, 7, 3, 1]), gps_check_mask=rng.choice([0, 21]),
          reset_timeout_max=rng.choice([7000000, 4000000]), quat_max_variance=rng.choice([0.0001, 0.0001, 1.0]))
    s.k("imu.dt", 10000, "imu.jit", 0, "mag.int", rng.choice([10000, 20000, 50000, 100000]), "noise", 0)
    s.call("gpshealth", 1000000)
    if modes & GPSYAW:
        s.k("gps.yaw", 1)
    if rng.random() < 0.3:
        s.k("gps.on", 0)
    s.run(rng.choice([1000, 4000, 6000]))
    s.k("gps.on", int("gps" in s.present))
    s.run(rng.choice([1000, 4000]))
    t = 0
    if bad:      # the magnetometer points elsewhere from the start: the backup estimator replaces it
        s.lines.insert(1, "k mag.dec %s" % rng.choice([2.2, -2.0, 1.6]))
        s.run(8000)
        takeoff(s, 1.5, 2500)
        for v in (6, 1, 7):
            s.k("vn", v, "ve", rng.choice([0, 3])).run(2500)
        t += 9000
    while t < ms:
        if rng.random() < 0.8:
            takeoff(s, 1.0, rng.choice([1000, 1400, 2500, 2500, 4000]))
        for k in range(rng.choice([2, 4])):
            x = rng.random()
            d = rng.choice([1000, 3000, 5000])
            if x < 0.25:
                s.k("yawrate", rng.choice([0.5, -0.7, 0.9, 0.2, 0.1]))
                s.run(d)
                s.k("yawrate", 0)
            elif x < 0.5:
                a, b = rng.choice([2, 3, -2.5]), rng.choice([0, 2])
                for z in (1, -1):
                    s.k("velmode", 0, "an", a * z, "ae", b * z)
                    s.run(2000)
                s.k("an", 0, "ae", 0, "velmode", 1, "vn", 0, "ve", 0, "vd", 0)
            elif x < 0.75:
                f = rng.choice(STRONG)
                s.k(*sum(([a, b] for a, b in f.items()), []))
                s.run(rng.choice([1000, 3000, 7000]))
                s.k(*sum(([a, 1 if a == "mag.scale" else 0] for a in f), []))
            else:
                n = rng.choice([n for n in ("gps", "gps", "ev", "mag", "flow") if n == "mag" or n in s.present])
                fault(s, n, d)
            s.run(rng.choice([500, 2500, 5000]))
            t += 5000
        if rng.random() < 0.4:
            s.k("air", 0, "velmode", 1, "vn", 0, "ve", 0, "vd", 0)
            s.run(2000)
            t += 2000
    return s.lines


def main():
    c = Check("C19")
    c.exhaustive("MagModesMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 25000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "MagModesTrace", 24 if c.thorough else 8, args=GROUPS)
    c.finish(scripts=len(sc))


main()
