import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "td", "d", "hz", "cs", "ratio", "baro"]


def script(rng, fly):
    s = Scn(rng)
    modes = [GPS, GPS | OF, GPS | EVVEL, EVPOS | EVYAW, EVVEL | EVPOS, GPS | GPSYAW, OF]
    random_params(s, modes)
    imu_timing(s)
    sensor_timing(s)
    s.k("noise", 1, "ground", 1, "acc.noise", 0.05, "gyr.noise", 0.002, "yaw0", round(rng.uniform(-3, 3), 2))
    s.k("ev.on", 1, "tas.on", rng.randrange(2), "aux.on", rng.randrange(2), "rng.on", 1, "flow.on", 1)
    s.call("rnglim", 0.2, 30).call("flowlim", 5, 0.1, 50).call("gpshealth", 1000000)
    if rng.random() < 0.3:
        s.par(mag_fusion_type=rng.choice([1, 2]))
    s.k("clip", 0).run(7000)
    takeoff(s, 1.5, 2000)
    s.k("clip", rng.choice([0, 1, 5])).run(30).k("clip", 0)
    fly_random(s, fly)
    return s.lines


def main():
    c = Check("C04")
    c.exhaustive("HorizonMC")
    c.exhaustive("IntakeMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 15000 if c.thorough else 3000) for _ in range(160 if c.thorough else 20)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "HorizonTrace", 20 if c.thorough else 5, args=GROUPS)
    c.finish(scripts=len(sc))


main()
