import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GATES = ["baro_innov_gate", "gps_pos_innov_gate", "gps_vel_innov_gate", "heading_innov_gate", "mag_innov_gate", "tas_innov_gate", "beta_innov_gate", "range_innov_gate",
         "ev_vel_innov_gate", "ev_pos_innov_gate", "flow_innov_gate", "auxvel_gate"]
# kind -> (fusion mode, sensors, parameters, knobs disturbed with small and large value, sensor to switch off)
TWINS = {
    "gps hpos": (GPS, {"gps"}, {}, [("gps.dn", 0.3, 60)], None),
    "gps hpos east": (GPS | EVVEL, {"gps", "ev"}, {}, [("gps.de", 0.3, 60)], None),
    "gps hvel": (GPS, {"gps"}, {}, [("gps.dvn", 0.1, 25)], None),
    "gps vvel": (GPS, {"gps"}, {}, [("gps.dvd", 0.1, 30)], None),
    "gps hgt": (GPS, {"gps"}, dict(vdist_sensor_type=1), [("gps.dd", 0.3, 80)], None),
    "gps all": (GPS, {"gps"}, {}, [("gps.dn", 0.3, 60), ("gps.dvn", 0.1, 25), ("gps.dvd", 0.1, 30)], "gps"),
    "gps all hgt": (GPS, {"gps"}, dict(vdist_sensor_type=1), [("gps.de", 0.3, 60), ("gps.dve", 0.1, 25), ("gps.dvd", 0.1, 30), ("gps.dd", 0.3, 90)], "gps"),
    "baro": (GPS, {"gps"}, {}, [("baro.off", 0.3, 90)], "baro"),
    "rng hgt": (GPS, {"gps", "rng"}, dict(vdist_sensor_type=2), [("rng.off", 0.05, 12)], "rng"),
    "rng": (GPS, {"gps", "rng"}, {}, [("rng.off", 0.05, 6)], "rng"),
    "ev pos": (EVPOS | EVYAW, {"ev"}, {}, [("ev.dn", 0.02, 15)], None),
    "ev hgt": (EVPOS, {"ev"}, dict(vdist_sensor_type=3), [("ev.dd", 0.02, 15)], None),
    "ev pos hgt": (EVPOS, {"ev"}, dict(vdist_sensor_type=3), [("ev.dd", 0.02, 15), ("ev.de", 0.02, 15)], "ev"),
    "ev hvel": (EVVEL, {"ev"}, {}, [("ev.dve", 0.02, 12)], None),
    "ev vvel": (EVVEL, {"ev"}, {}, [("ev.dvd", 0.02, 12)], None),
    "ev vel": (EVVEL, {"ev"}, {}, [("ev.dvd", 0.02, 12), ("ev.dvn", 0.02, 12)], "ev"),
    "ev yaw": (EVPOS | EVYAW, {"ev"}, {}, [("ev.dyaw", 0.02, 2.0)], None),
    "gps yaw": (GPS | GPSYAW, {"gps", "gyaw"}, {}, [("gps.dyaw", 0.02, 2.0)], None),
    "gps yaw all": (GPS | GPSYAW, {"gps", "gyaw"}, {}, [("gps.dyaw", 0.02, 2.0), ("gps.dn", 0.3, 60), ("gps.dvn", 0.1, 25), ("gps.dvd", 0.1, 30)], "gps"),
    "aux": (GPS, {"gps", "aux"}, {}, [("aux.dvn", 0.05, 30)], "aux"),
    "flow": (OF, {"rng", "flow"}, {}, [("flow.off", 0.02, 2.0)], "flow"),
    "mag small": (GPS, {"gps"}, dict(mag_fusion_type=1, check_mag_strength=0, mag_declination_source=3), [("mag.by", 0.005, 0.01)], None),
    "mag x": (GPS, {"gps"}, dict(mag_fusion_type=2, check_mag_strength=0, mag_declination_source=3), [("mag.bx", 0.005, 1.2)], "mag"),
    "mag y": (GPS, {"gps"}, dict(mag_fusion_type=2, check_mag_strength=0, mag_declination_source=3), [("mag.by", 0.005, 1.2)], "mag"),
    "mag z": (GPS, {"gps"}, dict(mag_fusion_type=2, check_mag_strength=0, mag_declination_source=3), [("mag.bz", 0.005, 1.2)], "mag"),
    "mag hdg": (GPS, {"gps"}, dict(mag_fusion_type=1, check_mag_strength=0), [("mag.dec", 0.02, 2.2)], "mag"),
    "tas": (GPS, {"gps", "tas"}, {}, [("tas.off", 0.2, 60)], "tas"),
    "rng wind": (GPS, {"gps", "rng", "tas"}, {}, [("rng.off", 0.05, 6)], "rng"),
    "beta": (GPS, {"gps", "tas"}, {}, [], None),
    "drag": (GPS | DRAG, {"gps"}, {}, [], None),
}


def twin(rng, kind):
    """Two filters that see the same flight until one sensor is disturbed differently (or not seen at all by one of them)."""
    mode, sens, par, dist, off = TWINS[kind]
    s = Scn(rng)
    world(s, [mode], sens, **par)
    for n in GATES:
        if rng.random() < 0.25:
            s.par(**{n: rng.choice([1.0, 2.0, 3.7, 5.0])})
    n = s.lines[0].split()[1]
    s.lines.insert(1, "twin " + n)
    s.k("rec", 0, "baro.jit", 0, "gps.jit", 0, "gps.int", 200000)
    s.call("gpshealth", 1000000).run(5000)
    if kind == "beta":
        s.k("fw", 1, "beta", 1, "yaw0", 0)
    takeoff(s, 1.5, 2500)
    if kind == "drag":
        s.par(bcoef_x=100, bcoef_y=100, drag_noise=1).k("vn", 16, "ve", rng.choice([-16, 16])).run(7000)
    if kind == "beta":
        s.k("vn", 14).run(5000).k("beta", 0, "vn", 8, "ve", rng.choice([-9, 9])).run(3000)
        s.k("rec", 1, "beta", 1).par(beta_innov_gate=1, beta_avg_ft_us=1e9).run(130)
        s.par(beta_avg_ft_us=100000)
        s.lines.append("par2 beta_avg_ft_us 1e9")
        s.run(400)
        return s.lines
    if kind != "drag":
        s.k("vn", 4, "yawrate", 0.6).run(4000).k("yawrate", 0, "vn", 7, "ve", 2).run(3000)
    s.k("rec", 1).run(130)
    if kind == "drag":
        ax = rng.choice("xy")
        s.par(**{"bcoef_" + ax: rng.choice([1.5, 3, 5])})
        s.lines.append("par2 bcoef_%s %r" % (ax, rng.choice([2, 4, 7])))
        s.run(400)
        return s.lines
    how = rng.choice(["out", "out", "mixed", "in"] + (["absent", "absent"] if off else []))
    sg = rng.choice([-1, 1])
    f = 1 if rng.random() < 0.3 else 30 ** -rng.random()
    for k, lo, hi in dist:
        a, b = {"out": (sg * hi * f, sg * hi * f * rng.choice([-1, -0.9, 1.1, 1.02])), "mixed": (0, sg * hi * f), "in": (0, sg * lo), "absent": (sg * hi * f, 0)}[how]
        s.k(k, a)
        s.lines.append("k2 %s %r" % (k, b))
    if how == "absent":
        s.lines.append("k2 %s.mute 1" % off)
    s.run(rng.choice([250, 450, 900]))
    return s.lines


def broad(rng, ms):
    s = full(rng, ms)
    i = next(j for j, x in enumerate(s.lines) if x.startswith("run"))
    for n in GATES:
        if rng.random() < 0.4:
            s.lines.insert(i, "par %s %r" % (n, rng.choice([0.5, 1.0, 2.0, 3.7, 7.5, 20.0])))
    return s.lines


def main():
    c = Check("C25")
    c.exhaustive("GatingMC")
    b = c.build("ekfsim", EKF_SOURCES)
    kinds = list(TWINS) * (80 if c.thorough else 8)
    kinds += ["drag"] * len(TWINS)
    sc = [twin(c.rng, k) for k in kinds]
    sc += [broad(c.rng, 15000 if c.thorough else 2500) for _ in range(120 if c.thorough else 12)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "GatingTrace", 20 if c.thorough else 6, args=["cs", "fs", "nf", "rs", "innov", "nis", "hst"])
    c.finish(scripts=len(sc))


main()
