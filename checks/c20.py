import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "fs", "nf", "we", "ie", "innov", "nis", "rs", "st", "truth", "gpsmsg", "hz"]
MODES = [GPS | GPSYAW, GPS | GPSYAW | EVYAW, GPSYAW | EVYAW | EVPOS, GPS | GPSYAW | EVVEL, GPSYAW | OF, GPS | EVYAW, GPS | GPSYAW, GPSYAW | EVYAW]
GF = [{"gps.yaw": 0}, {"gps.yaw": 0}, {"gps.dyaw": 1.5}, {"gps.dyaw": -0.4}, {"gps.on": 0}, {"gps.on": 0}, {"ev.on": 0}, {"mag.scale": 2.5}, {"gps.dyaw": 2.6}, {"gps.eph": 30}]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    world(s, [modes], {x for x in ("flow", "rng", "ev") if rng.random() < 0.7} | {"gps"} | ({"ev"} if modes & (EVYAW | EVPOS | EVVEL) else set()),
          mag_fusion_type=rng.choice([0, 0, 1, 2, 5]), gps_check_mask=rng.choice([0, 21]), vdist_sensor_type=0 if modes & GPS and rng.random() < 0.6 else 1,
          heading_innov_gate=rng.choice([2.6, 2.6, 5.0]))
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", 0, "yaw0", round(rng.uniform(-3.1, 3.1), 2), "gps.int", rng.choice([200000, 100000, 250000]))
    y0 = rng.choice([0, 0, 1.57, -1.0, 3.0])
    s.k("gps.yoff", y0, "gps.dyaw", -y0, "gps.yaw", rng.choice([0, 1, 1]))
    s.call("gpshealth", 1000000)
    s.run(rng.choice([2000, 4000, 6000]))
    s.k("gps.yaw", 1)
    s.run(rng.choice([1000, 4000]))
    if rng.random() < 0.8:
        takeoff(s, 1.0, rng.choice([1000, 3000]))
    t = 0
    while t < ms:
        if rng.random() < 0.7:
            s.k("yawrate", rng.choice([0.6, -0.9, 0.2, 0]), "vn", round(rng.uniform(-3, 3), 2), "ve", round(rng.uniform(-3, 3), 2))
        f = rng.choice(GF)
        d = rng.choice([1000, 3000, 4600, 5600, 5600, 8000, 12000])
        s.k(*sum(([a, b - y0 if a == "gps.dyaw" else b] for a, b in f.items()), []))
        s.run(d)
        s.k(*sum(([a, {"gps.yaw": 1, "gps.dyaw": -y0, "mag.scale": 1, "gps.eph": 0.5}.get(a, int(a.split(".")[0] in s.present))] for a in f), []))
        e = rng.choice([500, 2500, 6000])
        s.run(e)
        t += d + e
    return s.lines


def main():
    c = Check("C20")
    c.exhaustive("YawSourceMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 28000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "YawSourceTrace", 24 if c.thorough else 8, args=GROUPS)
    c.finish(scripts=len(sc))


main()
