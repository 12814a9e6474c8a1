import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, n):
    out = ["new"]
    refs = {0: None, 1: None}
    while len(out) < n:
        x = rng.random()
        k = rng.randrange(2)
        if x < 0.06:
            la = rng.choice([0.0, rng.uniform(-80, 80), rng.uniform(-60, 60), 47.397, -33.9, 84.5])
            lo = rng.choice([0.0, 180.0, -180.0, 179.9999, -179.9999, rng.uniform(-180, 180)])
            refs[k] = (la, lo)
            out.append("init %d %.9f %.9f %d" % (k, la, lo, rng.choice([-1, rng.randrange(1, 2000000000)])))
        elif x < 0.16:
            out.append("ref %d" % k)
        elif x < 0.7:
            la0, lo0 = refs[k] or (10, 20)
            s = rng.choice([0, 1e-5, 1e-3, 0.02, 0.09, 1.0, 20.0, 80.0])
            la = max(-89.9, min(89.9, la0 + rng.uniform(-s, s)))
            lo = lo0 + rng.uniform(-s, s)
            if rng.random() < 0.15:
                la = la0
            if rng.random() < 0.15:
                lo = lo0
            if rng.random() < 0.3:
                lo = (lo + 180) % 360 - 180
            out.append("proj %d %.9f %.9f" % (k, la, lo))
        else:
            s = rng.choice([0, 1, 100, 5000, 100000, 3000000, 9000000])
            out.append("rep %d %.3f %.3f" % (k, rng.choice([0, 1, 1]) * rng.uniform(-s, s), rng.choice([0, 1, 1]) * rng.uniform(-s, s)))
    return out


def main():
    c = Check("C09")
    c.exhaustive("ProjectionMC", "ProjectionMCdeep.cfg" if c.thorough else None)
    b = c.build("geo", ["geo/geo.cpp"])
    sc = [script(c.rng, 150) for _ in range(2500 if c.thorough else 60)]
    c.samples = [" ; ".join(sc[0][:8])]
    trace_check(c, b, sc, "ProjectionTrace", 8 if c.thorough else 3)
    c.finish()


main()
