import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, n):
    out = ["new"]
    enf = rng.choice([-1, -1, -1, 1.0, 0.9, 1.2])

    def par():
        out.append("par %.3f %d %d %.2f %.2f %.3f %.4f" % (rng.choice([0.1, 0.3, 0.01, 3.0]), rng.choice([3, 3, 5, 1, 60]), rng.choice([1, 3, 5]), enf,
                                                           rng.choice([1.4, 0.5]), rng.choice([0.3, 0.1]), rng.choice([0.0001, 0.0001, 0.2])))
    if rng.random() < 0.8:
        par()
    t = rng.choice([1000000, 100000000])
    wn, we = rng.uniform(-8, 8), rng.uniform(-8, 8)
    hdg = rng.uniform(-3, 3)
    tas = rng.choice([0.0, 12.0, 18.0, 25.0])
    scale = rng.choice([1.0, 1.0, 0.9, 1.1])
    turn = rng.choice([0, 0.002, 0.01])
    mode, until = "normal", 0
    while len(out) < n:
        t += rng.choice([5000, 10000, 20000, 33000, 50000, 99999, 100000, 100001])
        if t > until:
            mode = rng.choice(["normal", "normal", "normal", "badtas", "badbeta", "slow", "notas", "nobeta", "bothbad"])
            until = t + rng.choice([500, 3000, 5200, 7000, 9000]) * 1000
            if rng.random() < 0.2:
                enf = rng.choice([-1, -1, 1.0, 0.9])
                par()
            if rng.random() < 0.15:
                t += rng.choice([1, 3, 6]) * 1000000
            tas = rng.choice([12.0, 18.0, 25.0])
        hdg += turn
        a = 1.5 if mode == "slow" else tas
        vn, ve = a * math.cos(hdg), a * math.sin(hdg)
        vn, ve = (vn + wn, ve + we) if mode != "slow" else (vn, ve)
        vd = rng.choice([0, 0, 1.0, -1.5])
        x = rng.random()
        vi = [round(v * 100) for v in (vn, ve, vd)]
        if abs(vi[0] ** 2 + vi[1] ** 2 - 90000) < 300:
            vi = [300, 0, 0]
        if x < 0.35:
            out.append("update %d" % t)
        elif x < 0.7 and mode != "notas":
            m = math.hypot(math.hypot(vi[0] / 100 - wn, vi[1] / 100 - we), vd) / scale + rng.gauss(0, 0.3)
            if mode in ("badtas", "bothbad"):
                m += rng.choice([12, 12, 12, -60])
            if rng.random() < 0.004:
                out.append("tas %d -99999 %d %d %d %.3f" % (t, *vi, 0.1))
            else:
                out.append("tas %d %d %d %d %d %.3f" % (t, round(m * 100), *vi, rng.choice([0.0, 0.05, 0.5, 2.0])))
        elif x >= 0.7 and mode != "nobeta":
            h = hdg + rng.gauss(0, 0.03)
            if mode in ("badbeta", "bothbad"):
                h += 1.2
            if rng.random() < 0.01:
                h += math.pi / 2
            out.append("beta %d %d %d %d %.2f %.2f %.2f" % (t, *vi, rng.uniform(-20, 20), rng.uniform(-8, 8), math.degrees(h)))
    return out


def main():
    c = Check("C11")
    c.exhaustive("WindEstMC", "WindEstMCdeep.cfg" if c.thorough else None, workers=8 if c.thorough else 4)
    b = c.build("windest", ["airdata/WindEstimator.cpp"], flags=["-I" + REPO + "/airdata"])
    sc = [script(c.rng, 1200) for _ in range(400 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:8])]
    trace_check(c, b, sc, "WindEstTrace", 8 if c.thorough else 4)
    c.finish()


main()
