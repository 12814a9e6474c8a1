import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["pre", "d", "cs", "nf", "we", "ie", "innov", "nis", "st", "rs", "valid", "terr", "truth", "gpsmsg", "callrec"]
MODES = [OF, OF, OF | GPS, OF | GPS, OF | EVPOS, OF | EVVEL | EVYAW, OF, OF | GPS, GPS, GPS | EVPOS]
FF = [{"gps.eph": 4.3, "rng.on": 0}, {"gps.eph": 4.3, "rng.on": 0}, {"gps.on": 1}, {"flow.q": 0, "flow.off": 1.0}, {"flow.q": "min"}, {"flow.q": "min"}, {"flow.q": 0}, {"flow.on": 0}, {"flow.on": 0}, {"flow.dts": 0.5}, {"flow.dts": 1.35}, {"flow.dts": 1.1}, {"flow.q": 60}, {"flow.int": 300000}, {"flow.int": 1200000}, {"rng.on": 0}, {"rng.on": 0},
      {"gps.eph": 9}, {"gps.sacc": 1.6}, {"gps.on": 0}, {"gps.on": 0}, {"ev.on": 0}, {"flow.off": 1.5}]
NORM = {"flow.q": 255, "flow.dts": 0, "gps.eph": 0.5, "gps.sacc": 0.2, "flow.off": 0}


def script(rng, ms, i):
    s = Scn(rng)
    qmin = rng.choice([1, 50, 100])
    modes = MODES[i % len(MODES)]
    world(s, [modes], {x for x in ("gps", "rng", "ev", "aux") if rng.random() < 0.85} | {"flow", "rng"},
          reset_timeout_max=rng.choice([7000000, 4000000]), mag_fusion_type=rng.choice([0, 0, 1, 4, 5]), gps_check_mask=0, vdist_sensor_type=0, range_aid=0,
          flow_qual_min=qmin, check_mag_strength=0, req_hacc=5, req_vacc=8, req_sacc=1)
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", 1)
    s.call("flowlim", rng.choice([5, 2, 1]), 0.1, 50)
    s.call("gpshealth", 1000000)
    fi = rng.choice([20000, 33000, 50000, 100000])
    s.k("flow.int", fi)
    s.run(rng.choice([500, 4000, 7000, 9000, 12000]))
    if rng.random() < 0.4:
        s.k("flow.q", 0, "flow.off", 1.0).run(1500).k("flow.q", 255, "flow.off", 0).run(500)
    takeoff(s, rng.choice([1.0, 2.0]), rng.choice([1500, 2500, 4000]))
    t = 0
    while t < ms:
        x = rng.random()
        if rng.random() < 0.6:
            s.k("vn", round(rng.uniform(-3, 3), 2), "ve", round(rng.uniform(-3, 3), 2), "yawrate", round(rng.uniform(-0.3, 0.3), 2), "vd", round(rng.uniform(-0.3, 0.3), 2))
        if x < 0.65:
            f = rng.choice(FF)
            if f.get("rng.on") == 0 and rng.random() < 0.4:
                s.k("flow.on", 0)
            s.k(*sum(([a, qmin if b == "min" else b] for a, b in f.items()), []))
            d = rng.choice([300, 1500, 4500, 6500, 8500, 11500])
            s.run(d)
            for a in f:
                s.k(a, fi if a == "flow.int" else NORM.get(a, int(a.split(".")[0] in s.present)))
            s.k("flow.on", 1)
            t += d
        elif x < 0.75:
            s.k("roll", rng.choice([0.6, 0.9, -0.85])).run(1500).k("roll", 0)
            t += 1500
        elif x < 0.85:
            s.k("air", 0, "velmode", 1, "vn", 0, "ve", 0, "yawrate", 0, "roll", 0, "pitch", 0, "vd", 2).run(rng.choice([2500, 9000])).k("air", 1, "vd", -1).run(1500).k("vd", 0)
            t += 6000
        d = rng.choice([300, 2000, 4000, 6000])
        s.run(d)
        t += d
    return s.lines


def main():
    c = Check("C18")
    c.exhaustive("FlowAidingMC", "FlowAidingMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 90000 if c.thorough else 30000, i) for i in range(240 if c.thorough else 24)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "FlowAidingTrace", 24 if c.thorough else 6, args=GROUPS)
    c.finish(scripts=len(sc))


main()
