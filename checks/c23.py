import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *


def script(rng, ms):
    """Flights whose sensors jump, stop and come back, so that every kind of reset happens."""
    s = full(rng, ms)
    s.k("acc.noise", 0.02)
    if rng.random() < 0.3:
        s.call("origin", round(s.lat + rng.uniform(-0.03, 0.03), 5), round(s.lon + rng.uniform(-0.03, 0.03), 5), round(rng.uniform(0, 900), 1)).run(1500)
    return s.lines


def falling(rng):
    """Accelerometer trouble long enough that height and vertical velocity are reset."""
    s = Scn(rng)
    world(s, [GPS, GPS | OF, EVVEL], {"gps", "rng", "ev"}, vdist_sensor_type=rng.choice([0, 1, 2, 3]), bad_acc_reset_delay_us=500000)
    s.k("acc.noise", 0.02).call("gpshealth", 1000000).run(5000)
    takeoff(s, 1.5, 3000)
    for _ in range(2):
        s.k("acc.bz", rng.choice([-4, 3, 6])).run(rng.choice([2500, 7000])).k("acc.bz", 0).run(2500)
    return s.lines


def main():
    c = Check("C23")
    c.exhaustive("ResetsMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 60000 if c.thorough else 14000) for _ in range(150 if c.thorough else 24)]
    sc += [falling(c.rng) for _ in range(40 if c.thorough else 6)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "ResetsTrace", 24 if c.thorough else 6, args=["td", "cs", "ie", "calls", "rs", "st", "out"])
    c.finish(scripts=len(sc))


main()
