import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, dur):
    """Still phases of about a second interrupted by each kind of movement alone, by take-offs and by time gaps."""
    sc = rng.choice([1.0, 1.0, 0.5, 3.0, 10.0])
    out = ["new %d %.2f" % (rng.choice([200000, 1000000, 5000000, 70000000]), sc)]
    base = rng.choice([2500, 4000, 5000, 10000, 20000])
    t, ph, a, v, n = 0, None, [0.0] * 3, [0.0, 0.0, -9.81], 0
    slow = rng.random() < 0.3
    while t < dur:
        if n <= 0:
            ph = rng.choice(["still", "still", "still", "rot", "rotedge", "gvib", "avib", "bump", "gap", "air", "ground", "drift"])
            n = {"still": rng.choice([20, int(1.0e6 / base) - 2, int(1.0e6 / base) + 3, int(1.3e6 / base)]), "bump": 1, "gap": 1, "air": 0, "ground": 0}.get(ph, rng.randrange(1, 40))
            if ph in ("air", "ground"):
                out.append("air %d" % (ph == "air"))
                continue
            k = rng.randrange(3)
        n -= 1
        dt = base if not slow else int(base * rng.uniform(0.6, 1.6))
        if ph == "gap":
            dt = rng.choice([30000, 400000, 1100000, 60])
        t += dt
        d = min(max(dt, 100), 20000) * 1e-6
        a = [0.0] * 3
        v = [0.0, 0.0, -9.81 * d]
        if ph == "rot":
            a[k] = rng.choice([-1, 1]) * rng.uniform(0.06, 0.5) * sc * d
        elif ph == "rotedge":
            a[k] = rng.uniform(0.97, 1.03) * 0.05 * sc * d
        elif ph == "drift":
            a[k] = 0.03 * sc * d
        elif ph == "gvib":
            a[k] = (1 if n % 2 else -1) * min(0.02 * sc * d, rng.choice([0.4, 1.1, 3]) * sc / 4e4)
        elif ph == "avib":
            v[k] += (1 if n % 2 else -1) * rng.choice([0.3, 0.6, 2.0]) * sc / 2.1e2
        elif ph == "bump":
            v[k] += rng.choice([0.1, 0.6, 3.0]) * sc
        out.append("imu %d %d %.9f %.9f %.9f %.9f %.9f %.9f" % (t, dt, *a, *v))
    return out


def main():
    c = Check("C05")
    c.exhaustive("AtRestMC")
    b = c.build("rest", ["EKF/estimator_interface.cpp", "EKF/imu_down_sampler.cpp", "EKF/sensor_range_finder.cpp", "geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"])
    sc = [script(c.rng, 12000000) for _ in range(600 if c.thorough else 40)]
    c.samples = [" ; ".join(sc[0][:6])]
    trace_check(c, b, sc, "AtRestTrace", 16 if c.thorough else 6)
    c.finish(scripts=len(sc), lines=sum(map(len, sc)))


main()
