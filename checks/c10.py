import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, n):
    out = ["new"]

    def pt():
        return (rng.choice([0.0, rng.uniform(-85, 85), rng.uniform(-60, 60), 47.4, -33.0]),
                rng.choice([0.0, 180.0, -180.0, 179.99999, -179.99999, rng.uniform(-180, 180)]))

    def near(a, s):
        la = max(-89.0, min(89.0, a[0] + rng.uniform(-s, s)))
        lo = a[1] + rng.uniform(-s, s)
        return la, (lo + 180) % 360 - 180 if rng.random() < 0.7 else lo
    while len(out) < n:
        x = rng.random()
        a = pt()
        b = rng.choice([a, pt(), near(a, 0.001), near(a, 0.05), near(a, 0.15), near(a, 5), near(a, 60), (-a[0], a[1] + 180), (-a[0], a[1] - 180)])
        if rng.random() < 0.1:
            b = (a[0], b[1])
        if rng.random() < 0.1:
            b = (b[0], a[1])
        if x < 0.35:
            out.append("pair %.9f %.9f %.9f %.9f %.2f %.2f" % (*a, *b, rng.uniform(-400, 3000), rng.uniform(-400, 3000)))
        elif x < 0.5:
            d = rng.choice([0, 1, 50, 200, 1000, 30000, 500000, 5000000]) * rng.choice([1, 1, -1, rng.random()])
            out.append("wp %.9f %.9f %.6f %.3f" % (*a, rng.uniform(-7, 7), d))
        elif x < 0.6:
            if a == b:
                continue
            d = rng.choice([0, 1, 50, 200, 1000, 30000, 500000]) * rng.choice([1, 1, -1, rng.random()])
            if 0 < abs(d) < 0.05:
                d = 0
            b = near(a, rng.choice([0.05, 0.5, 20]))
            out.append("online %.9f %.9f %.9f %.9f %.3f" % (*a, *b, d))
        elif x < 0.85:
            a = (max(-60, min(60, a[0])), a[1])
            s = rng.choice([20, 100, 500])
            p, st, e = ([round(rng.uniform(-s, s), 1) for _ in range(2)] for _ in range(3))
            if rng.random() < 0.1:
                p = st
            if rng.random() < 0.05:
                p = e
            if (st[0] - e[0]) ** 2 + (st[1] - e[1]) ** 2 < 25:
                continue
            out.append("line %.9f %.9f %.1f %.1f %.1f %.1f %.1f %.1f" % (*a, *p, *st, *e))
        elif x < 0.95:
            a = (max(-60, min(60, a[0])), a[1])
            s = rng.choice([20, 100, 500])
            out.append("circ %.9f %.9f %.1f %.1f %.1f" % (*a, rng.uniform(-s, s), rng.uniform(-s, s), rng.choice([0, 0.05, 5, 50, 200, rng.uniform(1, 600)])))
        else:
            out.append("local " + " ".join("%.1f" % rng.choice([0, rng.uniform(-1000, 1000)]) for _ in range(6)))
    return out


def main():
    c = Check("C10")
    c.exhaustive("NavGeoMC", "NavGeoMCdeep.cfg" if c.thorough else None)
    b = c.build("geo", ["geo/geo.cpp"])
    sc = [script(c.rng, 200) for _ in range(3000 if c.thorough else 80)]
    c.samples = [" ; ".join(sc[0][:6])]
    trace_check(c, b, sc, "NavGeoTrace", 8 if c.thorough else 3)
    c.finish()


main()
