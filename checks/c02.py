import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, dur):
    """Random configuration and message streams: sensors slower and much faster than the filter can take, bursts, gaps, IMU jitter."""
    out = ["new %d" % rng.choice([1000000, 1000000, 3600000000, 36000000000, 360000000000])]
    mode = rng.choice([0, 1, 1, 1, 2, 3, 8, 16, 256, 25, 33, 35, 32])
    out += ["par fusion_mode %d" % mode, "par vdist_sensor_type %d" % rng.choice([0, 0, 0, 1, 2, 3]),
            "par range_aid %d" % rng.choice([0, 0, 1]), "par mag_fusion_type %d" % rng.choice([0, 0, 1, 5]),
            "par sensor_interval_min_ms %d" % rng.choice([20, 20, 10, 5, 40, 90])]
    hi = rng.choice([0, 12, 60, 200, 330])
    for d in ("mag", "baro", "gps", "airspeed", "flow", "range", "ev", "auxvel"):
        if rng.random() < 0.75:
            out.append("par %s_delay_ms %d" % (d, rng.choice([0, 5, 10, 20, 60, 110, 200, 330]) if hi == 330 else rng.randrange(0, hi + 1)))
    imudt = rng.choice([10000, 4000, 5000, 8000, 2500, 12000, 16000])
    jit = rng.choice([0, 0, 0.2, 0.8])
    ints = {}
    for s in ("mag", "baro", "gps", "rng", "tas", "flow", "ev", "aux"):
        if rng.random() < 0.7:
            ints[s] = rng.choice([3000, 7000, 13000, 20000, 50000, 110000, 200000])
    nxt = {s: rng.randrange(0, 50000) for s in ints}
    on = {s: True for s in ints}
    t = 0
    while t < dur:
        dt = int(imudt * (1 + jit * (rng.random() - 0.3)))
        if rng.random() < 0.004:
            dt *= rng.choice([3, 9, 30])
        t0, t = t, t + dt
        # messages that arrive before this IMU sample, in order of time
        ev = []
        for s in ints:
            while nxt[s] <= t:
                if on[s] and nxt[s] > t0 and t0 > 0:
                    ev.append((nxt[s], s))
                nxt[s] += int(ints[s] * rng.choice([1, 1, 1, 1.3, 0.7, 0.1])) + 1
            if rng.random() < 0.002:
                on[s] = not on[s]
        ev.sort()
        for te, s in ev:
            if te >= t:
                te = t - 1
            v = rng.randrange(-500, 500) / 10.0
            if s == "gps":
                out.append("gps %d %.1f %d %s" % (te, v, rng.choice([3, 3, 3, 4, 2, 0]), rng.choice(["0.5", "-1000", "0"])))
            else:
                out.append("%s %d %.1f" % (s, te, v))
        if rng.random() < 0.01:
            out.append("ok %d" % rng.randrange(2))
        out.append("imu %d %d %.2f" % (t, dt, rng.uniform(-5, 5)))
        for s in ints:       # and some at the very same instant, after it
            if rng.random() < 0.02 and not any(x[1] == s for x in ev):
                out.append("%s %d %.1f%s" % (s, t, 1.5, " 3 0" if s == "gps" else ""))
    return out


def main():
    c = Check("C02")
    c.exhaustive("IntakeMC")
    c.exhaustive("IntakeMC", "IntakeMCavg.cfg", tag="avg")
    b = c.build("intake", ["EKF/estimator_interface.cpp", "EKF/imu_down_sampler.cpp", "EKF/sensor_range_finder.cpp", "geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"])
    sc = [script(c.rng, rr) for rr in ([6000000] * 400 if c.thorough else [2500000] * 60)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "IntakeTrace", 16 if c.thorough else 6)
    c.finish(scripts=len(sc), lines=sum(map(len, sc)))


main()
