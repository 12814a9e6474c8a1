import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "fs", "nf", "we", "innov", "nis", "rs", "st", "stb", "abvar", "callrec"]
# fusion modes, height source, sensors
MIX = [(GPS, 0, {"gps"}), (GPS, 1, {"gps"}), (EVPOS | EVVEL, 3, {"ev"}), (GPS, 2, {"gps", "rng"}), (EVVEL, 0, {"ev"}), (OF, 0, {"flow", "rng"}), (GPS | NOBIAS, 0, {"gps"}), (GPS | EVPOS, 0, {"gps", "ev"})]


def script(rng, ms, i):
    s = Scn(rng)
    modes, hgt, sensors = MIX[i % len(MIX)]
    world(s, [modes], sensors, vdist_sensor_type=hgt, gps_check_mask=0, mag_fusion_type=rng.choice([0, 0, 1, 5]), vert_innov_test_lim=rng.choice([3, 3, 1.5, 4.5]),
          acc_bias_learn_tc=rng.choice([0.5, 0.2, 1.5]), acc_bias_learn_gyr_lim=rng.choice([3, 1, 0.4]), acc_bias_learn_acc_lim=rng.choice([25, 14, 11]),
          acc_bias_lim=rng.choice([0.4, 0.1, 0.05]), bad_acc_reset_delay_us=rng.choice([500000, 2000000]), range_aid=0)
    s.k("imu.dt", 10000, "imu.jit", 0, "acc.noise", 0.03)
    s.call("gpshealth", 1000000)
    s.run(rng.choice([500, 5500]))
    if rng.random() < 0.3:      # rolled over on the ground
        s.k("roll", rng.choice([0.5, 0.7, 1.2, -1.4])).run(1200).k("roll", 0, "pitch", rng.choice([0, 0.75, -1.2])).run(900).k("pitch", 0).run(1500)
    takeoff(s, 1.0, 2500)
    s.run(rng.choice([500, 6000]))
    t = 0
    while t < ms:
        x = rng.random()
        d = rng.choice([60, 300, 1100, 2500, 6000])
        if x < 0.22:            # the accelerometer reads too little
            s.k("acc.bz", round(rng.choice([1, -1, 1]) * rng.uniform(0.4, 7), 1), "clip", rng.choice([0, 0, 4, 2, 1]))
            if rng.random() < 0.4:      # one of the two measurements stops in the middle of it
                s.run(rng.choice([150, 300, 600, 1200])).k(*rng.choice([("gps.on", 0, "ev.on", 0), ("baro.on", 0, "rng.on", 0)])).k("acc.bz", rng.choice([0, 0, 3])).run(rng.choice([300, 900])).k("clip", rng.choice([0, 2, 4]))
                d = rng.choice([1500, 4000])
        elif x < 0.34:          # bursts of clipping
            for _ in range(rng.choice([1, 3, 6])):
                s.k("clip", rng.choice([1, 2, 4, 7, 3])).run(rng.choice([10, 30, 200, 900])).k("clip", 0).run(rng.choice([10, 60, 400, 1200]))
                t += 600
            d = 100
        elif x < 0.5:           # violent manoeuvres
            s.k("yawrate", rng.choice([0.5, 1.5, 4, -6]))
        elif x < 0.6:
            s.k("velmode", 0, "an", rng.choice([0, 8, -16, 25]), "ae", rng.choice([0, 6, 20]))
            d = min(d, 300)
        elif x < 0.7:           # the sensor is right and the innovations are wrong
            s.k(*rng.choice([("baro.alt", rng.choice([3, -3, 12])), ("baro.off", 5), ("gps.dvd", rng.choice([1.5, -2, 4])), ("gps.dd", 6), ("ev.dvd", 2), ("ev.dd", rng.choice([2, -2]))]))
        elif x < 0.78:
            s.k(*rng.choice([("gps.on", 0), ("baro.on", 0), ("ev.on", 0)]))
        elif x < 0.86:
            s.k("acc.bx", round(rng.uniform(-0.5, 0.5), 2), "acc.bz", round(rng.uniform(-0.6, 0.6), 2))
            d = 6000
        elif x < 0.9:
            s.call(rng.choice(["resetAccelBias", "resetImuBias"]))
        elif x < 0.94:
            s.par(fusion_mode=rng.choice([modes, modes ^ NOBIAS]))
        else:
            s.k("roll", round(rng.uniform(-0.4, 0.4), 2), "pitch", round(rng.uniform(-0.4, 0.4), 2))
        s.run(d)
        s.k("clip", 0, "yawrate", 0, "velmode", 1, "baro.alt", 0, "baro.off", 0, "gps.dvd", 0, "gps.dd", 0, "ev.dvd", 0, "ev.dd", 0, "baro.on", 1)
        s.k("gps.on", int("gps" in sensors), "rng.on", int("rng" in sensors), "ev.on", int("ev" in sensors), "roll", 0, "pitch", 0)
        if rng.random() < 0.7:
            s.k("acc.bx", 0, "acc.bz", 0)
        e = rng.choice([100, 900, 2500, 11000])
        s.run(e)
        t += d + e
    return s.lines


def main():
    c = Check("C31")
    c.exhaustive("AccelMC", "AccelMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 120000 if c.thorough else 36000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "AccelTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
