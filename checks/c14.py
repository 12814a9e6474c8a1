import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

DISTURB = [{}, {}, {"yawrate": 0.35}, {"yawrate": 0.25}, {"acc.bz": 3.5}, {"acc.bz": -3.0}, {"acc.bx": 7}, {"shake": 2}, {"wobble": 0.5}, {"gyr.bx": 0.3}, {"acc.bz": -1.8}, {"mag.on": 0}, {"baro.on": 0}, {"mag.on": 0, "baro.on": 0}]


def settle(s, n):
    """Disturbances before the filter starts."""
    r = s.rng
    for _ in range(n):
        d = r.choice(DISTURB)
        s.k(*sum(([a, b] for a, b in d.items()), [])).run(r.choice([100, 300, 1000, 3000]))
        s.k(*sum(([a, 1 if a.endswith(".on") else 0] for a in d), []))
        if r.random() < 0.5:
            s.run(r.choice([50, 150]))


def attitude(s):
    r = s.rng
    s.k("roll", round(r.choice([0, 0, r.uniform(-3.1, 3.1), r.uniform(-1, 1), r.uniform(-0.3, 0.3)]), 3), "pitch", round(r.choice([0, 0, r.uniform(-0.9, 0.9), r.uniform(-0.3, 0.3)]), 3))


def script(rng, ms, i):
    s = Scn(rng)
    world(s, [GPS, OF, GPS | OF, EVPOS | EVYAW, 0], {x for x in ("gps", "flow", "rng", "ev", "gyaw") if rng.random() < 0.6},
          mag_fusion_type=rng.choice([0, 0, 1, 2, 3, 4, 5]), vdist_sensor_type=rng.choice([0, 0, 0, 1, 2, 3]))
    s.k("imu.dt", 10000, "imu.jit", 0, "acc.noise", 0.02)
    s.k("baro.int", rng.choice([25000, 12000, 60000, 100000]), "mag.int", rng.choice([20000, 10000, 50000, 100000]))
    attitude(s)
    settle(s, rng.choice([0, 0, 1, 2, 4]))
    if rng.random() < 0.1:
        s.k("shake", 0, "yawrate", 0.4).run(rng.choice([4000, 8000])).k("yawrate", 0)
    s.run(1500 if rng.random() < 0.3 else 5000)
    t = 0
    while t < ms:
        attitude(s)
        s.k("yawrate", round(rng.uniform(-0.8, 0.8), 2)).run(rng.choice([500, 2000])).k("yawrate", 0)
        if rng.random() < 0.7:
            s.call("init")
            settle(s, rng.choice([0, 0, 1, 2]))
            s.run(rng.choice([100, 4000, 6000]))
            t += 4000
        t += 2000
    return s.lines


def main():
    c = Check("C14")
    c.exhaustive("AlignMC", "AlignMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 20000 if c.thorough else 8000, i) for i in range(240 if c.thorough else 48)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "AlignTrace", 24 if c.thorough else 6, args=["pre", "hz", "d", "calls", "callrec", "cs", "st", "tilt", "baro", "innov"])
    c.finish(scripts=len(sc))


main()
