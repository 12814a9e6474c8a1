import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["every", "pre", "rs", "obs"]
MODES = [GPS, GPS, EVPOS | EVVEL | EVYAW, GPS | OF, EVPOS, OF, GPS | EVYAW, GPS]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    world(s, [modes], {"gps", "ev", "flow", "rng"}, gps_check_mask=0, mag_fusion_type=rng.choice([0, 0, 1]), vdist_sensor_type=rng.choice([0, 0, 1, 2]) if modes & GPS else 0,
          vel_Tau=rng.choice([0.25, 0.25, 0.1, 0.6]), pos_Tau=rng.choice([0.25, 0.25, 0.1, 0.5]),
          gps_delay_ms=rng.choice([110, 60, 200]), ev_delay_ms=rng.choice([175, 80]))
    if i % 2:
        s.par(imu_pos_x=rng.choice([0, 0.3, -0.2]), imu_pos_y=rng.choice([0.15, -0.4]), imu_pos_z=rng.choice([0, 0.2]))
    else:
        s.par(imu_pos_x=0, imu_pos_y=0, imu_pos_z=0)
    s.k("imu.dt", rng.choice([10000, 10000, 5000]), "imu.jit", 0)
    s.call("gpshealth", 1000000)
    s.run(rng.choice([3000, 7000]))
    takeoff(s, 1.0, 2000)
    t = 0
    while t < ms:
        x = rng.random()
        fly_random(s, 1000, 1000, vmax=6, yaw=1.5, tilt=0.3)
        if x < 0.3:
            s.k(*rng.choice([("gps.dvn", 1.5, "ev.dvn", 0.8), ("gps.de", 2, "ev.de", 0.6), ("baro.off", 2), ("gps.dvd", 1, "ev.dvd", 0.6)]))
        elif x < 0.45:
            s.k("acc.bx", round(rng.uniform(-0.4, 0.4), 2), "acc.bz", round(rng.uniform(-0.4, 0.4), 2), "gyr.bz", round(rng.uniform(-0.02, 0.02), 3))
        elif x < 0.6:
            s.call(rng.choice(["resetGyroBias", "resetAccelBias", "resetImuBias"]))
        elif x < 0.75:
            s.k("gps.on", 0, "ev.on", 0)
        elif x < 0.85:
            s.k("mag.dn", 0.15, "ev.dyaw", 0.1)
        s.run(rng.choice([300, 1500, 3500]))
        s.k("gps.dvn", 0, "ev.dvn", 0, "gps.de", 0, "ev.de", 0, "baro.off", 0, "gps.dvd", 0, "ev.dvd", 0, "mag.dn", 0, "ev.dyaw", 0, "gps.on", 1, "ev.on", 1)
        s.run(rng.choice([500, 2000]))
        t += 3500
    return s.lines


def main():
    c = Check("C29")
    c.exhaustive("OutputsMC", "OutputsMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 80000 if c.thorough else 14000, i) for i in range(240 if c.thorough else 16)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "OutputsTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
