import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "fs", "innov", "nis", "rs", "st", "wind"]
MODES = [GPS, GPS | DRAG, GPS, EVPOS, GPS | OF, EVVEL, GPS | DRAG, OF]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    drag = modes & DRAG
    s.present = {"gps", "ev", "flow", "rng", "tas"}
    world(s, [modes], {"tas"} | {"gps"} | ({"ev"} if modes & (EVPOS | EVVEL) else set()) | ({"flow", "rng"} if modes & OF else set()),
          mag_fusion_type=rng.choice([0, 0, 1]), gps_check_mask=0, beta_avg_ft_us=rng.choice([150000, 150000, 50000, 400000]), initial_wind_uncertainty=rng.choice([1, 0.5, 1.5]),
          airspeed_delay_ms=rng.choice([100, 30, 200]), tas_innov_gate=rng.choice([3, 1.5, 5]), eas_noise=rng.choice([1.4, 0.7]), reset_timeout_max=rng.choice([7000000, 3000000]))
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", rng.choice([0, 1]), "wn", round(rng.uniform(-5, 5), 1), "we", round(rng.uniform(-5, 5), 1))
    if i % 4 == 2:
        s.k("wn", 0, "we", 0, "noise", 1)
    s.call("gpshealth", 1000000)
    fw = rng.random() < 0.7
    s.k("fw", int(fw), "beta", int(rng.random() < 0.6), "tas.on", int(rng.random() < 0.7))
    s.run(rng.choice([1500, 5500, 7000]))
    takeoff(s, 1.0, 2000)
    v = rng.choice([3, 9, 14, 20])
    yaw = rng.uniform(-2, 2)
    t = 0
    while t < ms:
        x = rng.random()
        d = rng.choice([300, 900, 2600, 5200, 10400, 13000])
        if x < 0.3:
            s.k("tas.on", 0)
        elif x < 0.5:
            s.k("tas.scale", rng.choice([2.5, 0.3, 1.3]))
        elif x < 0.62:
            s.k("gps.on", 0, "ev.on", 0, "flow.on", 0)
        elif x < 0.74:
            s.k("air", 0)
        elif x < 0.86:
            s.k("beta", rng.choice([0, 1]))
        else:
            v = rng.choice([0.2, 0.2, 1.2, 3, 7, 9, 16])
            s.k("vn", round(v * 0.8, 1), "ve", round(v * 0.6, 1))
        if rng.random() < 0.3:
            s.k("beta", rng.choice([0, 1]))
        if rng.random() < 0.15:
            s.k("wn", round(rng.uniform(-8, 8), 1), "we", round(rng.uniform(-8, 8), 1))
        if drag and rng.random() < 0.1:
            s.par(fusion_mode=rng.choice([modes, modes & ~DRAG]))
        s.run(d)
        s.k("tas.on", int(rng.random() < 0.75), "tas.scale", 1, "gps.on", 1, "ev.on", int(bool(modes & (EVPOS | EVVEL))), "flow.on", int(bool(modes & OF)), "air", int(rng.random() < 0.85))
        e = rng.choice([100, 600, 2500, 6000])
        s.run(e)
        t += d + e
    return s.lines


def main():
    c = Check("C26")
    c.exhaustive("WindMC", "WindMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 120000 if c.thorough else 40000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "WindTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
