import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["cs", "fs", "nf", "we", "ie", "rs", "st", "truth", "origin", "valid", "wind", "terr", "world"]
# modes, sensors, yaw comes from, parameters
KINDS = [(GPS, set(), {}), (GPS, set(), {"vdist_sensor_type": 1}), (GPS | OF, {"flow", "rng"}, {}), (EVPOS | EVYAW, {"ev"}, {"vdist_sensor_type": 3, "mag_fusion_type": 5}), (EVVEL | EVYAW, {"ev"}, {"mag_fusion_type": 5}),
         (OF, {"flow", "rng"}, {}), (GPS | GPSYAW, {"gyaw"}, {"mag_fusion_type": 5}), (GPS | EVYAW, {"ev"}, {"mag_fusion_type": 5}), (GPS, set(), {"mag_fusion_type": 1}), (GPS, {"rng"}, {"range_aid": 1}), (EVPOS, {"ev"}, {}), (OF, {"flow", "rng"}, {"vdist_sensor_type": 2}),
         (GPS, {"tas"}, {}), (GPS, {"tas"}, {"mag_fusion_type": 0})]


def script(rng, ms, i):
    s = Scn(rng)
    modes, sensors, par = KINDS[i % len(KINDS)]
    par = dict({"mag_fusion_type": rng.choice([0, 0, 1])}, **par) if "mag_fusion_type" not in par else dict(par)
    par.setdefault("vdist_sensor_type", 0)
    present = {x for x in sensors if x != "gyaw"} | ({"gps"} if modes & GPS else set())
    s.par(fusion_mode=modes, terrain_fusion_mode=3, **par)
    sensor_timing(s)
    s.k("ground", 1)
    for n in ("gps", "rng", "flow", "ev", "tas", "aux"):
        s.k(n + ".on", int(n in present))
    s.call("rnglim", 0.2, 30).call("flowlim", 5, 0.1, 50)
    s.k("imu.dt", rng.choice([10000, 10000, 5000]), "imu.jit", 0, "noise", 0, "earth", 1, "yaw0", round(rng.uniform(-3.1, 3.1), 3), "lat", round(rng.uniform(-60, 60), 4), "lon", round(rng.uniform(-170, 170), 4))
    s.k("gps.int", rng.choice([200000, 100000]))
    if i // len(KINDS) % 3 == 1:    # biases of the inertial sensors, to be learned
        b = lambda m: round(rng.uniform(-m, m), 4)
        s.k("gyr.bx", b(0.01), "gyr.by", b(0.01), "gyr.bz", b(0.01), "acc.bx", b(0.03), "acc.by", b(0.03), "acc.bz", b(0.1))
    if "gyaw" in sensors:
        o = rng.choice([0, 0.4, 1.2])
        s.k("gps.yaw", 1, "gps.yoff", o, "gps.dyaw", -o)
    s.call("gpshealth", rng.choice([1000000, 6000000]))
    if not modes & GPS:         # nothing tells the declination
        s.k("mag.dec", 1e-6)
    s.run(rng.choice([8000, 12000, 20000]))
    takeoff(s, 1.2, 7000 if modes & OF else 3000)
    t = 0
    if "tas" in sensors:            # round and round, in the wind or with the nose where it goes
        fw = i % len(KINDS) == 13
        s.k("fw", int(fw), "beta", int(fw), "course", int(fw))
        if not fw:
            s.k("wn", round(rng.uniform(-2.5, 2.5), 1), "we", round(rng.uniform(-2.5, 2.5), 1))
        s.k("vn", 12, "ve", 5, "vd", 0).run(6000).k("velmode", 0)
        while t < ms:
            s.k("circ", rng.choice([0.3, 0.3, -0.25])).run(6000)
            t += 6000
        return s.lines
    while t < ms:
        x = rng.random()
        if x < 0.6:
            fly_random(s, 6000, 3000, vmax=3, yaw=0.4, tilt=0.4 if modes == OF else 0.12)
        elif x < 0.8:
            s.k("yawrate", rng.choice([1.0, -0.7]), "roll", 0.1).run(3000).k("yawrate", 0, "roll", 0).run(1500)
        else:
            s.k("vn", 0, "ve", 0).run(4000)
        t += 5000
    return s.lines


def main():
    c = Check("C30")
    c.exhaustive("TruthMC", "TruthMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 120000 if c.thorough else 30000, i) for i in range(240 if c.thorough else 36)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "TruthTrace", 24 if c.thorough else 8, args=GROUPS)
    c.finish(scripts=len(sc))


main()
