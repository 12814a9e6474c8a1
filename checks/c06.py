import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def stuck_again(rng):
    """Two long outages; after each the readings return stuck, and recover after the first."""
    out = ["new", "cfg 200 40000 %d 7071 0" % rng.choice([0, 1000])]
    t = 1000000
    v = rng.randrange(3000, 9000)
    for k in range(3):
        for mode, ms in (("moving", 1500), (rng.choice(["badq", "out", "tilt"]), rng.choice([10500, 12000])), ("stuck", 1200), ("moving", 800), (rng.choice(["badq", "out"]), 10400), ("stuck", 1500)):
            roll = 0
            for _ in range(ms // 50):
                t += 50000
                r, q = v, 100
                if mode == "moving":
                    v += rng.choice([70, -70, 200, -200, 30])
                    v = max(v, 1000)
                elif mode == "badq":
                    q = 0
                elif mode == "out":
                    r = 45000
                elif mode == "tilt":
                    roll = 900
                out += ["sample %d %d %d" % (t, r, q), "check %d %d 0" % (t, roll)]
            v = rng.randrange(1000, 30000)
    return out


def script(rng, n):
    out = ["new"]
    lo, hi = rng.choice([(200, 10000), (100, 40000), (0, 2000)])
    pitch = rng.choice([0, 0, 300, -300, 1570])
    hyst = rng.choice([0, 1000, 1500])
    out.append("cfg %d %d %d %d %d" % (lo, hi, hyst, rng.choice([7071, 9000]), pitch))
    t = 1000000
    rngmm = rng.randrange(lo, hi)
    period = rng.choice([10, 20, 30, 60, 100, 200, 350])
    nxt = 0
    mode, until = "good", 0
    roll = pit = 0
    basepit = -pitch
    i = 0
    while i < n:
        t += 10000
        if t > until:
            mode = rng.choice(["good", "good", "good", "gap", "longgap", "badq", "tilt", "out", "frozen", "frozen", "dip", "jitter"])
            until = t + rng.choice([50, 200, 420, 800, 1600, 3000] if mode != "longgap" else [9000, 10500, 13000]) * 1000
            roll = pit = 0
            if mode == "tilt":
                roll, pit = rng.choice([(800, 0), (0, 800), (600, 600), (-790, 0), (400, 100)])
            if mode == "jitter":
                period = rng.choice([10, 20, 30, 60, 100, 200, 350, 500])
        if mode not in ("gap", "longgap") and t >= nxt:
            nxt = t + period * 1000
            r, q = rngmm, 100
            if mode == "frozen":
                pass
            else:
                rngmm = min(max(rngmm + rng.choice([0, 3, -3, 30, -30, 60, -60]), max(lo - 50, 0)), hi + 50)
            if mode == "badq":
                q = rng.choice([0, 0, 1, -1])
            if mode == "dip" and rng.random() < 0.1:
                q = 0
            if mode == "out":
                r = rng.choice([lo, max(lo - 1, 0), hi, hi + 1, 0, hi * 2])
            out.append("sample %d %d %d" % (t - rng.choice([0, 0, 1000, 5000, 9000]), r, q))
        elif rng.random() < 0.97:
            out.append("ready 0")
        x = rng.random()
        if x < 0.004:
            out.append("validity %d" % rng.randrange(2))
        elif x < 0.008:
            out.append("setrange %d" % rng.randrange(lo, hi))
        elif x < 0.010:
            pitch = rng.choice([0, 300, -300, 1570, 3140, 3140])
            basepit = -pitch
            out.append("cfg %d %d %d %d %d" % (lo, hi, hyst, rng.choice([7071, 9000]), pitch))
        if mode in ("gap", "longgap") and rng.random() < 0.9:
            t += 90000
        out.append("check %d %d %d" % (t, roll, basepit + pit))
        i += 1
    return out


def main():
    c = Check("C06")
    c.exhaustive("RangeFinderMC")
    b = c.build("rangefinder", ["EKF/sensor_range_finder.cpp"])
    sc = [script(c.rng, 900) for _ in range(400 if c.thorough else 24)]
    sc += [stuck_again(c.rng) for _ in range(60 if c.thorough else 6)]
    c.samples = [" ; ".join(sc[0][:14])]
    trace_check(c, b, sc, "RangeFinderTrace", 8 if c.thorough else 4)
    c.finish()


main()
