import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "innov", "nis", "rs", "st", "terr"]
MODES = [GPS, GPS, GPS | OF, EVPOS, GPS, OF]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    s.present = {"gps", "ev", "flow", "rng"}
    world(s, [modes], {"gps", "flow"} | ({"ev"} if modes & EVPOS else set()) | ({"rng"} if rng.random() < 0.8 else set()),
          mag_fusion_type=0, gps_check_mask=0, rng_sens_pitch=0, range_valid_quality_s=1, terrain_fusion_mode=rng.choice([3, 3, 3, 1, 2, 0]), rng_gnd_clearance=rng.choice([0.1, 0.3, 0.05, 1]),
          vdist_sensor_type=rng.choice([0, 0, 2, 1]), range_aid=0, terrain_p_noise=rng.choice([5, 2, 0.5]), terrain_gradient=rng.choice([0.5, 0.1]))
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", rng.choice([0, 1]), "flow.int", 20000, "rng.int", 50000)
    s.call("gpshealth", 1000000)
    early = rng.random() < 0.25
    s.k("ground", 1)
    if early:
        s.k("air", 1)
    s.run(rng.choice([1500, 5500, 7000]))
    takeoff(s, rng.choice([1.0, 2.0]), rng.choice([2000, 4000]))
    s.k("ground", 0)
    t = 0
    while t < ms:
        d = rng.choice([300, 900, 2600, 5200, 7000, 10400, 13000])
        x = rng.random()
        n = {}
        if x < 0.3:
            n = {"rng.on": 0}
        elif x < 0.42:
            n = {"rng.off": rng.choice([5, -1, 1.5])}
        elif x < 0.52:
            n = {"terrain": rng.choice([8, 2, 0.5])}
        elif x < 0.6:
            n = {"air": 0}
        elif x < 0.7:
            n = {"flow.on": 0, "rng.on": 0}
        elif x < 0.78:
            n = {"gps.on": 0, "rng.on": 0}
        elif x < 0.86:
            n = {"flow.scale": rng.choice([4, 0.2]), "rng.on": 0}
        elif x < 0.92:
            n = {"rng.q": 0}
        elif x < 0.96:
            s.par(terrain_fusion_mode=rng.choice([0, 1, 2, 3]))
        s.k(*sum(([a, b] for a, b in n.items()), []))
        s.k("vn", rng.choice([0, 0.6, 1.5, -1]), "ve", rng.choice([0, 0.5, -0.8]), "vd", rng.choice([0, 0, 0.4, -0.6]))
        s.run(d)
        back = {"rng.on": int(rng.random() < 0.8), "rng.off": 0, "rng.q": 100, "gps.on": 1, "flow.on": 1, "flow.scale": 1, "air": int(rng.random() < 0.95), "terrain": 0}
        s.k(*sum(([a, b] for a, b in back.items()), []))
        s.k("vd", rng.choice([0, 0, -0.3]))
        e = rng.choice([100, 600, 2500, 6000])
        s.run(e)
        t += d + e
    return s.lines


def main():
    c = Check("C27")
    c.exhaustive("TerrainMC", "TerrainMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 120000 if c.thorough else 40000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "TerrainTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
