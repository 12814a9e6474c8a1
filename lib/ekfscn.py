"""Scenario scripts for the whole-filter simulator (harness/ekfsim.cpp)."""
EKF_SOURCES = ["EKF", "geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"]
GPS, OF, NOBIAS, EVPOS, EVYAW, DRAG, ROTEV, GPSYAW, EVVEL = 1, 2, 4, 8, 16, 32, 64, 128, 256


class Scn:
    """A script under construction; remembers knobs so that phases can be composed."""

    def __init__(self, rng, seed=None):
        self.rng = rng
        self.lines = ["new %d" % (seed if seed is not None else rng.randrange(1, 10 ** 6))]
        self.ms = 0

    def par(self, **kw):
        for n, v in kw.items():
            self.lines.append("par %s %s" % (n, repr(v)))
        return self

    def k(self, *a, **kw):
        it = list(zip(a[::2], a[1::2])) + [(n.replace("__", "."), v) for n, v in kw.items()]
        for n, v in it:
            self.lines.append("k %s %s" % (n, repr(v) if not isinstance(v, bool) else int(v)))
        return self

    def call(self, n, *a):
        self.lines.append("call %s %s" % (n, " ".join(repr(x) for x in a)))
        return self

    def run(self, ms):
        ms = int(ms) // 10 * 10
        self.lines.append("run %d" % ms)
        self.ms += ms
        return self


def random_params(s, modes=None):
    """Timing and configuration noise that any scenario may carry."""
    r = s.rng
    if modes is not None:
        s.par(fusion_mode=r.choice(modes))
    if r.random() < 0.4:
        for d in ("mag", "baro", "gps", "airspeed", "flow", "range", "ev", "auxvel"):
            if r.random() < 0.5:
                s.par(**{d + "_delay_ms": r.choice([0, 5, 10, 30, 60, 110, 170])})
    if r.random() < 0.2:
        s.par(sensor_interval_min_ms=r.choice([10, 30, 50]))


def imu_timing(s):
    r = s.rng
    x = r.random()
    if x < 0.25:
        s.k("imu.dt", r.choice([4000, 5000, 8000, 2500]))
    elif x < 0.4:
        s.k("imu.dt", r.choice([10000, 8000]), "imu.jit", 0.3)


def sensor_timing(s):
    r = s.rng
    for n in ("mag", "baro", "gps", "rng", "flow", "ev", "tas", "aux"):
        if r.random() < 0.4:
            s.k(n + ".jit", r.choice([0.1, 0.5]))
        if r.random() < 0.4:
            s.k(n + ".ph", r.randrange(0, 100000))
    if r.random() < 0.3:
        s.k("mag.int", r.choice([10000, 50000]))
    if r.random() < 0.3:
        s.k("baro.int", r.choice([12000, 60000]))
    if r.random() < 0.3:
        s.k("gps.int", r.choice([100000, 125000, 250000]))


def takeoff(s, climb=1.0, ms=3000):
    s.k("air", 1, "velmode", 1, "vd", -climb).run(ms).k("vd", 0)
    return s


def fly_random(s, ms, seg=2500, vmax=4.0, yaw=0.5, tilt=0.15):
    """Velocity commands, turns and tilts at random."""
    r = s.rng
    t = 0
    while t < ms:
        s.k("vn", round(r.uniform(-vmax, vmax), 2), "ve", round(r.uniform(-vmax, vmax), 2), "vd", round(r.uniform(-0.5, 0.5), 2),
            "yawrate", round(r.uniform(-yaw, yaw), 2), "roll", round(r.uniform(-tilt, tilt), 2), "pitch", round(r.uniform(-tilt, tilt), 2))
        d = min(seg, ms - t)
        s.run(d)
        t += d
    s.k("yawrate", 0, "roll", 0, "pitch", 0, "vd", 0)
    return s


# sensor faults: name -> list of {knob: value}; the normal values are restored afterwards
FAULTS = {
    "gps": [{"gps.on": 0}, {"gps.fix": 2}, {"gps.nsats": 3}, {"gps.dn": 80}, {"gps.de": -300}, {"gps.dvn": 8}, {"gps.dve": -4}, {"gps.sacc": 4}, {"gps.eph": 12},
            {"gps.epv": 20}, {"gps.pdop": 5}, {"gps.dd": 25}, {"gps.dvd": 6}, {"gps.velvalid": 0}, {"gps.int": 1500000}],
    "mag": [{"mag.on": 0}, {"mag.scale": 1.8}, {"mag.scale": 0.5}, {"mag.bx": 0.3}, {"mag.by": -0.2, "mag.bx": 0.2}, {"mag.dd": 0.3}],
    "baro": [{"baro.on": 0}, {"baro.off": 30}, {"baro.off": -8}, {"baro.int": 300000}],
    "rng": [{"rng.on": 0}, {"rng.q": 0}, {"rng.off": 3}, {"rng.stuck": 1}, {"rng.int": 700000}],
    "flow": [{"flow.on": 0}, {"flow.q": 0}, {"flow.off": 1.5}, {"flow.scale": 3}, {"flow.gyro": 0}, {"flow.dts": 3}, {"flow.int": 400000}],
    "ev": [{"ev.on": 0}, {"ev.dn": 5}, {"ev.dyaw": 1.0}, {"ev.dvn": 3}, {"ev.dd": 5}, {"ev.int": 500000}, {"ev.body": 1}],
    "tas": [{"tas.on": 0}, {"tas.off": 12}, {"tas.scale": 0.2}],
    "imu": [{"acc.bz": 4.0}, {"acc.bx": 0.5}, {"gyr.bz": 0.1}, {"vib": 20}, {"clip": 7}, {"clip": 2}],
    "gyaw": [{"gps.yaw": 0}, {"gps.dyaw": 1.5}, {"gps.yofn": 1}],
}
NORMAL = {"gps.fix": 3, "gps.nsats": 16, "gps.eph": 0.5, "gps.epv": 0.8, "gps.pdop": 1, "gps.sacc": 0.2, "gps.velvalid": 1, "gps.int": 200000, "mag.on": 1, "mag.scale": 1,
          "baro.on": 1, "baro.int": 25000, "rng.q": 100, "rng.int": 50000, "flow.q": 255, "flow.scale": 1, "flow.gyro": 1, "flow.int": 20000, "ev.int": 33000, "tas.scale": 1}
ONOFF = {"gps.on", "rng.on", "flow.on", "ev.on", "tas.on"}


def world(s, modes, sensors, **par):
    """Parameters, start attitude and the set of sensors present."""
    r = s.rng
    s.present = set(sensors)
    random_params(s, modes)
    s.par(**par)
    imu_timing(s)
    sensor_timing(s)
    s.k("noise", 1, "ground", 1, "acc.noise", r.choice([0.02, 0.05, 0.1]), "gyr.noise", 0.002, "yaw0", round(r.uniform(-3.1, 3.1), 2))
    s.lat, s.lon = round(r.uniform(-70, 70), 3), round(r.uniform(-180, 180), 3)
    s.k("lat", s.lat, "lon", s.lon)
    for n in ("gps", "rng", "flow", "ev", "tas", "aux"):
        s.k(n + ".on", int(n in s.present))
    s.k("gps.yaw", int("gyaw" in s.present))
    s.call("rnglim", 0.2, 30).call("flowlim", 5, 0.1, 50)
    return s


def fault(s, name, ms, after=0):
    """One random fault of a sensor for ms, then back to normal (and run `after`)."""
    f = s.rng.choice(FAULTS[name])
    s.k(*sum(([n, v] for n, v in f.items()), []))
    s.run(ms)
    for n in f:
        s.k(n, NORMAL.get(n, int(n.split(".")[0] in s.present) if n in ONOFF else (int("gyaw" in s.present) if n == "gps.yaw" else 0)))
    if after:
        s.run(after)
    return s


def campaign(s, ms, names=None, p=0.5, seg=(300, 4000), vmax=5.0):
    """Random flight with random faults."""
    r = s.rng
    t = 0
    names = names or [n for n in FAULTS if n in s.present or n in ("mag", "baro")]
    while t < ms:
        s.k("vn", round(r.uniform(-vmax, vmax), 2), "ve", round(r.uniform(-vmax, vmax), 2), "vd", round(r.uniform(-0.8, 0.8), 2),
            "yawrate", round(r.uniform(-0.6, 0.6), 2), "roll", round(r.uniform(-0.2, 0.2), 2), "pitch", round(r.uniform(-0.2, 0.2), 2))
        d = r.randrange(*seg)
        if r.random() < p:
            fault(s, r.choice(names), d)
        else:
            s.run(d)
        t += d
        if r.random() < 0.04:
            s.k("air", 0, "velmode", 1, "vn", 0, "ve", 0, "yawrate", 0, "roll", 0, "pitch", 0, "vd", 2).run(2500).k("air", 1, "vd", -1).run(1500)
            t += 4000
    return s


def full(rng, ms, health=1000000, modes=None, **par):
    """A broad random flight over all aiding combinations."""
    s = Scn(rng)
    modes = modes or [GPS, GPS | OF, OF, EVPOS | EVYAW, EVPOS, EVVEL, EVVEL | EVYAW, GPS | EVVEL, GPS | EVPOS, GPS | EVPOS | ROTEV, GPS | OF | EVVEL, GPS | GPSYAW, GPS | DRAG, 0]
    sens = {n for n in ("gps", "rng", "flow", "ev", "tas", "aux", "gyaw") if rng.random() < 0.65}
    if rng.random() < 0.7:
        sens |= {"gps"}
    p = dict(vdist_sensor_type=rng.choice([0, 0, 0, 1, 1, 2, 3]), mag_fusion_type=rng.choice([0, 0, 0, 1, 2, 3, 5]), range_aid=rng.randrange(2), check_mag_strength=rng.randrange(2))
    p.update(par)
    world(s, modes, sens, **p)
    s.k("fw", int(rng.random() < 0.3), "beta", int(rng.random() < 0.4))
    s.call("gpshealth", health)
    s.run(rng.choice([3000, 5000, 6000]))
    takeoff(s, 1.5, 2500)
    campaign(s, ms)
    return s
