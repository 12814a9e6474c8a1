import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

REQ = {"req_nsats": [6, 10], "req_pdop": [2.0, 2.5], "req_hacc": [3.0, 5.0], "req_vacc": [5.0, 8.0], "req_sacc": [0.5, 1.0], "req_hdrift": [0.1, 0.3], "req_vdrift": [0.2, 0.5]}


def quality(s, req):
    """Message qualities at, just inside and just outside the requirements."""
    r = s.rng
    s.k("gps.nsats", req["req_nsats"] + r.choice([0, 0, 4, -1, -3]), "gps.pdop", req["req_pdop"] + r.choice([0, -0.5, 0.001, 1]),
        "gps.eph", req["req_hacc"] + r.choice([0, -1, -2, 0.001, 3]), "gps.epv", req["req_vacc"] + r.choice([0, -2, 0.001, 4]), "gps.sacc", req["req_sacc"] + r.choice([0, -0.3, 0.001, 1]))


def good(s, req):
    s.k("gps.nsats", req["req_nsats"], "gps.pdop", req["req_pdop"], "gps.eph", req["req_hacc"] - s.rng.choice([0, 1]), "gps.epv", req["req_vacc"], "gps.sacc", req["req_sacc"] - s.rng.choice([0, 0.2]), "gps.fix", 3,
        "gps.dvn", 0, "gps.dvd", 0, "gps.rn", 0, "gps.rd", 0)


def motion(s):
    r = s.rng
    m = r.random()
    if m < 0.45:
        s.k("air", 0, "vib", 0, "velmode", 0, "vn", 0, "ve", 0, "vd", 0)
    elif m < 0.75:
        s.k("air", 0, "velmode", 0, "vib", r.choice([2, 4]))        # moved about on the ground
    else:
        s.k("air", 1, "vib", 0, "velmode", 1, "vn", r.choice([0, 3]), "vd", r.choice([0, -1, 1]))


def script(rng, ms):
    s = Scn(rng)
    req = {n: rng.choice(v) for n, v in REQ.items()}
    mask = rng.choice([0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 511, 511, 21, 17, 245, 479, 255, 352])
    world(s, [GPS, GPS, GPS | OF, EVPOS], {"gps"}, vdist_sensor_type=rng.choice([0, 0, 1]), gps_check_mask=mask, sensor_interval_min_ms=20, gps_delay_ms=rng.choice([110, 50, 0]), **req)
    dt = rng.choice([10000, 10000, 5000, 8000])
    s.k("imu.dt", dt, "imu.jit", 0, "gps.int", rng.choice([200000, 100000, 250000]), "noise", 0 if rng.random() < 0.8 else 1, "acc.noise", 0.01, "gyr.noise", 0.0005, "gps.jit", rng.choice([0, 0.3]))
    health = rng.choice([None, 1000000, 2000000, 5000000])
    if health:
        s.call("gpshealth", health)
    good(s, req)
    t = 0
    while t < ms:
        k = rng.random()
        d = rng.choice([300, 1000, 2500, 4000])
        if k < 0.25:
            quality(s, req)
        elif k < 0.4:
            s.k("gps.fix", rng.choice([2, 0, 3, 4, 5, 6]))
        elif k < 0.55:
            lim = req["req_hdrift"]
            s.k("gps.dvn", round(rng.choice([0.5, 0.9, 1.1, 3, 30]) * lim, 3), "gps.dvd", round(rng.choice([0, 0.9, 1.1, 4]) * req["req_vdrift"] * rng.choice([-1, 1]), 3))
        elif k < 0.7:
            s.k("gps.rn", round(rng.choice([0.9, 1.2, 5, 40]) * req["req_hdrift"], 3), "gps.rd", round(rng.choice([0, 0.9, 1.2, 40]) * req["req_vdrift"], 3))
            d = rng.choice([2000, 6000])
        elif k < 0.73 and dt == 10000:        # every record then ends with its step, so that a change lies between two records
            n = rng.choice(list(REQ))
            req[n] = rng.choice(REQ[n])
            s.par(**{n: req[n]})
        elif k < 0.8:
            s.k("gps.on", 0).run(rng.choice([1000, 3000, 12000])).k("gps.on", 1)
        if rng.random() < 0.4:
            motion(s)
        s.run(d)
        t += d
        good(s, req)
        if rng.random() < 0.6:
            d = rng.choice([500, 2000, (health or 10000000) // 1000 + 1000])
            s.run(d)
            t += d
    return s.lines


CHECKS = ["nsats", "pdop", "hacc", "vacc", "sacc", "hdrift", "vdrift", "hspeed", "vspeed"]


def focused(rng, i):
    """One check violated from the start, selected alone or the only one not selected; later healthy."""
    s = Scn(rng)
    k = i % 9
    req = dict(req_nsats=6, req_pdop=2.5, req_hacc=3.0, req_vacc=5.0, req_sacc=0.5, req_hdrift=0.3, req_vdrift=0.5)
    mask = (1 << k) if (i // 9) % 2 == 0 else 511 ^ (1 << k)
    world(s, [GPS], {"gps"}, gps_check_mask=mask, sensor_interval_min_ms=20, gps_delay_ms=110, **req)
    s.k("imu.dt", 10000, "imu.jit", 0, "gps.int", 200000, "noise", 0, "acc.noise", 0.01, "gyr.noise", 0.0005)
    good(s, req)
    s.call("gpshealth", 3000000).run(500)
    bad = {"nsats": ("gps.nsats", 5), "pdop": ("gps.pdop", 2.6), "hacc": ("gps.eph", 3.2), "vacc": ("gps.epv", 5.5), "sacc": ("gps.sacc", 0.7), "hdrift": ("gps.rn", 2.9), "vdrift": ("gps.rd", 4.9),
           "hspeed": ("gps.dvn", 2.9), "vspeed": ("gps.dvd", 4.0)}[CHECKS[k]]
    s.k(*bad).run(rng.choice([5000, 7000]))
    if CHECKS[k] in ("hdrift", "vdrift", "hspeed"):
        s.k("vib", 3).run(1500).k("vib", 0).run(3000)
    s.k(bad[0], 0)
    good(s, req)
    s.run(rng.choice([4000, 8000]))
    return s.lines


def main():
    c = Check("C12")
    c.exhaustive("GpsChecksMC", "GpsChecksMCdeep.cfg" if c.thorough else None)
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 60000 if c.thorough else 20000) for _ in range(200 if c.thorough else 40)]
    sc += [focused(c.rng, i) for i in range(72 if c.thorough else 18)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "GpsChecksTrace", 24 if c.thorough else 6, args=["d", "gpsmsg", "calls", "ie", "valid"])
    c.finish(scripts=len(sc))


main()
