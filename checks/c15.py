import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "fs", "nf", "we", "innov", "nis", "st", "rs", "terr", "valid", "baro", "gpsmsg", "truth"]
LOSS = {"baro": [{"baro.on": 0}, {"baro.on": 0}, {"baro.off": 40}, {"baro.off": -25}, {"baro.off": 8}, {"baro.int": 700000}, {"baro.int": 200000}],
        "gps": [{"gps.on": 0}, {"gps.dd": 60}, {"gps.dd": -30}, {"gps.epv": 20}, {"gps.fix": 2}, {"gps.nsats": 3}, {"gps.int": 1300000}, {"gps.int": 700000}],
        "rng": [{"rng.on": 0}, {"rng.q": 0}, {"rng.off": 12}, {"rng.int": 700000}, {"terrain": 6}],
        "ev": [{"ev.on": 0}, {"ev.dd": 20}, {"ev.int": 500000}],
        "imu": [{"acc.bz": 5.0}, {"acc.bz": -6.0, "clip": 4}, {"acc.bz": 12.0, "clip": 7}, {"clip": 7}]}


def lose(s, names):
    for n in names:
        for a, b in s.rng.choice(LOSS[n]).items():
            s.k(a, b)


def heal(s, n):
    for f in LOSS[n]:
        for a in f:
            s.k(a, NORMAL.get(a, int(a.split(".")[0] in s.present) if a.endswith(".on") else 0))
    if n == "baro":
        s.k("baro.on", 1)


def script(rng, ms, i):
    s = Scn(rng)
    vd = i % 4
    need = {0: set(), 1: {"gps"}, 2: {"rng"}, 3: {"ev"}}[vd]
    world(s, [GPS, GPS, GPS | OF, EVPOS | EVYAW, EVPOS | GPS, OF], {x for x in ("gps", "flow", "rng", "ev") if rng.random() < 0.85} | need,
          vdist_sensor_type=vd, range_aid=rng.choice([0, 1]), req_vacc=rng.choice([3.0, 8.0]), bad_acc_reset_delay_us=rng.choice([500000, 500000, 2000000]), gps_check_mask=rng.choice([0, 21]))
    dt = rng.choice([10000, 10000, 8000])
    s.k("imu.dt", dt, "imu.jit", 0, "rng.int", 50000)
    s.call("gpshealth", rng.choice([200000, 1000000]))
    s.run(4000)
    if rng.random() < 0.9:
        takeoff(s, rng.choice([1.0, 2.0]), 2000)
    t = 0
    bad = set()
    prim = ["baro", "gps", "rng", "ev"]
    while t < ms:
        x = rng.random()
        if x < 0.4 and bad:
            n = rng.choice(sorted(bad))
            heal(s, n)
            bad.discard(n)
        elif x < 0.9:
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.choice([prim[vd], prim[vd], "baro", "gps", "rng", "ev", "imu", "imu"])
                lose(s, [n])
                bad.add(n)
        elif dt == 10000:
            vd = rng.choice([0, 1, 2, 3])
            s.par(vdist_sensor_type=vd)
        if rng.random() < 0.3:
            s.k("vn", round(rng.uniform(-2, 2), 2), "ve", round(rng.uniform(-1, 1), 2), "vd", round(rng.uniform(-0.4, 0.4), 2))
        d = rng.choice([300, 1500, 6000, 6500])
        if "imu" in bad:
            d = min(d, 2500)
        s.run(d)
        if "imu" in bad:
            heal(s, "imu")
            bad.discard("imu")
        t += d
    return s.lines


def stale():
    """Vision is the height source and goes away."""
    import random
    s = Scn(random.Random(1), 7)
    s.par(fusion_mode=EVPOS | EVYAW, vdist_sensor_type=3)
    s.k("noise", 1, "ground", 1, "gps.on", 0, "rng.on", 0, "flow.on", 0, "ev.on", 1)
    s.run(6000)
    takeoff(s, 1.0, 3000)
    s.k("ev.on", 0).run(7000)
    return s.lines


def main():
    c = Check("C15")
    c.exhaustive("HeightSourceMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 30000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "HeightSourceTrace", 24 if c.thorough else 6, args=GROUPS)
    known_finding(c, b, stale(), "HeightSourceTrace", "HeightSourceTraceStrict.cfg", "vision-height-stale", GROUPS)
    c.finish(scripts=len(sc))


main()
