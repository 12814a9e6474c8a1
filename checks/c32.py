import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *


def twins(rng, ms):
    """The same flight on two filters constructed in differently filled memory, with a third one flying something else in between."""
    s = full(rng, ms)
    n = s.lines[0].split()[1]
    return [s.lines[0], "twin " + n, "bystander %d" % rng.randrange(1, 1000)] + s.lines[1:]


def again(rng):
    """Initialised again after a flight, then left on the ground with healthy sensors."""
    s = Scn(rng)
    world(s, [GPS], {"gps", "rng", "tas"}, vdist_sensor_type=rng.choice([0, 1]), mag_fusion_type=rng.choice([0, 1]))
    s.par(gps_check_mask=511, check_mag_strength=0)
    s.k("fw", 0, "beta", 0, "gps.int", 200000, "gps.jit", 0, "imu.jit", 0)
    s.call("gpshealth", 1000000).k("decim", 5).run(5000)
    takeoff(s, 1.0, 3000)
    fly_random(s, 5000)
    s.k("velmode", 1, "vn", 8, "ve", 3).run(6000)
    if rng.random() < 0.5:
        fault(s, rng.choice(["mag", "baro", "gps"]), 7000)
    s.k("velmode", 1, "vn", 0, "ve", 0, "vd", 2.0).run(6000)
    s.k("air", 0).run(rng.choice([300, 3000])).call("init").run(40000)
    return s.lines


def main():
    c = Check("C32")
    c.exhaustive("InstancesMC")
    b = c.build("ekfsim", EKF_SOURCES, flags=["-ftrivial-auto-var-init=pattern"])
    sc = [twins(c.rng, 20000 if c.thorough else 7000) for _ in range(160 if c.thorough else 26)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "InstancesTrace", 16 if c.thorough else 4, args=["td", "hash"])
    sa = [again(c.rng) for _ in range(40 if c.thorough else 6)]
    trace_check(c, b, sa, "InstancesTrace", 4 if c.thorough else 2, args=["cs", "fs", "st", "stb", "valid", "callrec"])
    c.finish(scripts=len(sc) + len(sa))


main()
