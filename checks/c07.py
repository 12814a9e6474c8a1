import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, n):
    out = ["new %d" % rng.choice([-1, 0, 2500, 5000, 10000, rng.randrange(10001)])]
    mag = rng.choice([100, 5000, 50000])

    def x():
        return " ".join(str(rng.randrange(-mag, mag + 1)) for _ in range(4))
    hold = x()
    while len(out) < n:
        p = rng.random()
        if p < 0.08:
            out.append("alpha %d" % rng.choice([0, 10000, rng.randrange(10001)]))
        elif p < 0.2:
            out.append("par %d %d" % rng.choice([(0, 0), (10, -10), (5, -20), (0, 1000), (1000, 0), (rng.randrange(1, 2000), rng.randrange(0, 20000)),
                                                 (rng.randrange(1, 50), rng.randrange(1, 500))]))
        elif p < 0.25:
            out.append("reset " + x())
        else:
            if rng.random() < 0.5:
                hold = x()
            out.append("upd " + hold)
    return out


def main():
    c = Check("C07")
    c.exhaustive("AlphaFilterMC")
    b = c.build("alphafilter")
    sc = [script(c.rng, 120) for _ in range(2000 if c.thorough else 60)]
    c.samples = [" ; ".join(sc[0][:8])]
    trace_check(c, b, sc, "AlphaFilterTrace", 8 if c.thorough else 2)
    c.finish()


main()
