import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "we", "ie", "innov", "nis", "st", "rs", "abvar", "truth", "gsf", "valid", "gpsmsg", "callrec"]


def script(rng, ms, i):
    s = Scn(rng)
    modes = [GPS, GPS, GPS | OF, GPS, GPS | EVVEL, GPS][i % 6]
    mag = [0, 1, 5, 0, 5, 3][i % 6]
    world(s, [modes], {"gps"} | ({"flow", "rng"} if modes & OF else set()) | ({"ev"} if modes & EVVEL else set()),
          gps_check_mask=0, reset_timeout_max=rng.choice([7000000, 4000000]), mag_fusion_type=mag, vdist_sensor_type=0,
          EKFGSF_reset_count_limit=rng.choice([1, 2]) if i % 3 == 2 else rng.choice([3, 1, 2, 0]), EKFGSF_yaw_err_max=rng.choice([0.262, 0.1, 0.4]), EKFGSF_reset_delay=rng.choice([1000000, 2000000]))
    s.k("imu.dt", 10000, "imu.jit", 0, "yaw0", round(rng.uniform(-3.1, 3.1), 2))
    s.k("gps.int", rng.choice([200000, 100000]), "gps.sacc", rng.choice([0.2, 0.2, 1.0]), "gps.epv", rng.choice([0.8, 3]))
    s.call("gpshealth", rng.choice([200000, 1000000]))
    if rng.random() < 0.6:      # a heading that is wrong from the start
        s.k("mag.bx", round(rng.uniform(-0.5, 0.5), 2), "mag.by", round(rng.uniform(-0.5, 0.5), 2))
    fw = rng.random() < 0.2
    s.run(rng.choice([3000, 6000]))
    s.run(1500)
    takeoff(s, 1.0, rng.choice([500, 2000]))
    kicks = i % 3 == 2
    t = 0
    while t < ms:
        x = rng.random()
        if kicks and x < 0.6:  # the gyro sends the heading astray, again and again
            s.k("gyr.bz", rng.choice([0.6, -0.7, 1.2])).run(2500).k("gyr.bz", 0)
            for _ in range(3):
                s.k("vn", rng.choice([-12, -8, 0, 8, 12]), "ve", rng.choice([-12, -8, 0, 8, 12])).run(1800)
            t += 6500
        elif x < 0.5:             # manoeuvres
            for _ in range(rng.choice([2, 4])):
                s.k("vn", round(rng.uniform(-8, 8), 2), "ve", round(rng.uniform(-8, 8), 2), "yawrate", round(rng.uniform(-0.6, 0.6), 2), "roll", round(rng.uniform(-0.2, 0.2), 2), "pitch", round(rng.uniform(-0.2, 0.2), 2))
                d = rng.choice([1000, 2500])
                s.run(d)
                t += d
        elif x < 0.6:
            s.k(*rng.choice([("gps.dvn", 6), ("gps.dve", -15), ("gps.dvn", 40), ("gps.dvn", -9, "gps.dve", 9), ("gps.on", 0), ("gps.on", 0), ("gps.int", 1500000)]))
            d = rng.choice([200, 200, 1200, 3000])
            s.run(d).k("gps.dvn", 0, "gps.dve", 0, "gps.on", 1, "gps.int", 200000)
            t += d
        elif x < 0.66:
            s.k("gps.sacc", rng.choice([0.2, 0.3, 3, 1.5]), "gps.epv", rng.choice([0.3, 6, 2]))
        elif x < 0.72:          # down and up again
            s.k("air", 0).run(rng.choice([100, 2000])).k("air", 1)
            t += 1500
        elif x < 0.9:
            s.k("mag.bx", round(rng.uniform(-0.6, 0.6), 2), "mag.by", round(rng.uniform(-0.6, 0.6), 2))
        elif x < 0.94:
            s.par(fusion_mode=rng.choice([OF, modes | OF])).run(4000).par(fusion_mode=modes)
            t += 4000
        else:
            s.k("yawrate", rng.choice([1.5, -0.8])).run(2000).k("yawrate", 0)
            t += 2000
        d = rng.choice([100, 1000, 3000])
        s.run(d)
        t += d
    return s.lines


def main():
    c = Check("C28")
    c.exhaustive("YawGsfMC", "YawGsfMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 40000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "YawGsfTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
