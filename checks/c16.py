import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "we", "ie", "innov", "nis", "st", "rs", "valid", "gpsmsg"]
GPSF = [{"gps.on": 0}, {"gps.on": 0}, {"gps.int": 1500000}, {"gps.dn": 80}, {"gps.de": -200, "gps.dvn": 9}, {"gps.dn": 150, "gps.dve": 8}, {"gps.dvn": 12, "gps.dve": 9}, {"gps.nsats": 3}, {"gps.nsats": 3}, {"gps.eph": 9}, {"gps.fix": 2}, {"gps.sacc": 4}]


def script(rng, ms, i):
    s = Scn(rng)
    modes = [GPS, GPS, GPS | OF, GPS | EVPOS, GPS | EVVEL, GPS | EVPOS | EVYAW, EVPOS, OF][i % 8]
    world(s, [modes], {x for x in ("gps", "flow", "rng", "ev", "tas") if rng.random() < 0.7} | {"gps"},
          gps_check_mask=rng.choice([21, 1, 245]), reset_timeout_max=rng.choice([7000000, 4000000]), mag_fusion_type=rng.choice([0, 0, 1, 3, 5]), vdist_sensor_type=rng.choice([0, 0, 1]))
    s.k("imu.dt", 10000, "imu.jit", 0)
    s.k("gps.int", rng.choice([200000, 100000, 300000]))
    NORMAL["gps.int"] = 200000
    s.k("fw", int(rng.random() < 0.2), "beta", int(rng.random() < 0.3))
    if rng.random() < 0.8:
        s.call("gpshealth", rng.choice([200000, 2000000]))
    if rng.random() < 0.3:
        s.k("gps.nsats", 4).run(rng.choice([3000, 8000])).k("gps.nsats", 16)
    elif rng.random() < 0.3:
        s.k("gps.on", 0).run(rng.choice([3000, 5000])).k("gps.on", 1)
    s.run(rng.choice([4000, 9000]))
    if rng.random() < 0.85:
        takeoff(s, 1.0, 2000)
    t = 0
    while t < ms:
        x = rng.random()
        if rng.random() < 0.6:
            s.k("vn", round(rng.uniform(-4, 4), 2), "ve", round(rng.uniform(-4, 4), 2), "yawrate", round(rng.uniform(-0.3, 0.3), 2))
        if x < 0.5:
            f = rng.choice(GPSF)
            if "gps.dvn" in f and rng.random() < 0.6:
                s.k("vn", 0, "ve", 0, "yawrate", 0).run(2500)
            s.k(*sum(([a, b] for a, b in f.items()), []))
            d = rng.choice([500, 1500, 4000, 6000, 8000, 11000, 16000])
            s.run(d)
            s.k(*sum(([a, NORMAL.get(a, 1 if a == "gps.on" else 0)] for a in f), []))
            t += d
        elif x < 0.65:
            s.par(fusion_mode=rng.choice([modes, modes & ~GPS, modes | OF, modes | EVPOS])).run(1500).par(fusion_mode=modes)
            t += 1500
        elif x < 0.85:
            fault(s, rng.choice([n for n in ("flow", "ev", "mag") if n == "mag" or n in s.present]), rng.choice([1000, 5000]))
            t += 3000
        d = rng.choice([300, 2000, 4000, 6000])
        s.run(d)
        t += d
    return s.lines


def main():
    c = Check("C16")
    c.exhaustive("GpsAidingMC", "GpsAidingMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 30000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "GpsAidingTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
