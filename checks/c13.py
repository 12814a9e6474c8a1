import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *


def ask(s):
    r = s.rng
    s.call("origin", round(s.lat + r.choice([0, 0.0001, -0.002, 0.02]) + r.uniform(-1e-3, 1e-3), 6), round(s.lon + r.uniform(-0.003, 0.003), 6), r.choice([488, 500, 420, 600, 30.5]))


def script(rng, ms, i):
    s = Scn(rng)
    kind = ["gps", "flow", "gps", "mix", "gps", "ev"][i % 6]
    modes = {"gps": [GPS], "flow": [OF, GPS | OF], "mix": [GPS | OF, GPS | EVVEL, GPS | EVPOS], "ev": [EVPOS | EVYAW, GPS | EVPOS, EVVEL]}[kind]
    sens = {"gps": {"gps"}, "flow": {"gps", "flow", "rng"}, "mix": {"gps", "flow", "rng", "ev"}, "ev": {"gps", "ev"}}[kind]
    vd = rng.choice([0, 1, 2, 2] if "rng" in sens else [0, 0, 1, 3 if kind == "ev" else 1])
    world(s, modes, sens, vdist_sensor_type=vd, mag_fusion_type=rng.choice([0, 0, 1, 2, 5]), range_aid=rng.randrange(2), sensor_interval_min_ms=20)
    s.lat = round(rng.uniform(-65, 65), 3)
    s.k("lat", s.lat, "alt", rng.choice([488, 20, 2500]), "imu.dt", rng.choice([10000, 10000, 5000]), "imu.jit", 0, "acc.noise", 0.02)
    s.call("gpshealth", rng.choice([500000, 1000000, 2000000]))
    early = rng.random()
    s.run(50)
    if early < 0.12:
        ask(s)
    if rng.random() < 0.5:
        s.k("gps.on", 0)                    # GNSS comes late, in flight
    s.run(rng.choice([200, 2000, 5000]))
    if 0.12 <= early < 0.2:
        ask(s)
    s.run(3500)
    takeoff(s, 1.2, 2500)
    s.k("vn", round(rng.uniform(-3, 3), 2), "ve", round(rng.uniform(-3, 3), 2)).run(rng.choice([1000, 4000]))
    if rng.random() < 0.2:
        ask(s)
        s.run(1000)
    s.k("gps.on", 1)
    if rng.random() < 0.3:
        s.k("gps.fix", 2).run(1500).k("gps.fix", 3)
    s.run(rng.choice([3000, 5000]))
    t = 0
    while t < ms:
        if rng.random() < 0.6:
            s.k("vn", round(rng.uniform(-2, 2), 2), "ve", round(rng.uniform(-2, 2), 2), "vd", 0, "yawrate", round(rng.uniform(-0.3, 0.3), 2), "roll", 0, "pitch", 0).run(1500)
            ask(s)
            s.run(2000)
            if rng.random() < 0.3:
                ask(s)
            s.run(12500)
            t += 16000
        campaign(s, 3000)
        s.k("velmode", 1, "vd", 0).run(6000)
        t += 9000
        if rng.random() < 0.25:
            s.call("init").run(6000)
    return s.lines


def main():
    c = Check("C13")
    c.exhaustive("OriginMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 60000 if c.thorough else 20000, i) for i in range(240 if c.thorough else 42)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "OriginTrace", 24 if c.thorough else 6, args=["d", "gpsmsg", "calls", "callrec", "cs", "ie", "st", "rs", "origin", "truth"])
    c.finish(scripts=len(sc))


main()
