import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *


def script(rng, ms):
    """Broad flights, many with process noise and initial uncertainty far outside the usual range."""
    par = {}
    for n, vs in {"switch_on_accel_bias": [0.2, 0.9], "switch_on_gyro_bias": [0.1, 2.0], "accel_bias_p_noise": [6e-3, 1.0], "gyro_bias_p_noise": [1e-3, 1.0],
                  "wind_vel_p_noise": [0.1, 1.0], "initial_wind_uncertainty": [1.0, 2000.0], "mage_p_noise": [1e-3, 0.1], "magb_p_noise": [1e-4, 0.1],
                  "gyro_noise": [1.5e-2, 0.1], "accel_noise": [0.35, 1.0], "mag_noise": [0.05, 0.05, 1.5], "acc_bias_lim": [0.4, 0.1], "initial_tilt_err": [0.1, 0.5]}.items():
        if rng.random() < 0.4:
            par[n] = rng.choice(vs)
    s = full(rng, ms, **par)
    if rng.random() < 0.5:
        s.call(rng.choice(["resetImuBias", "resetGyroBias", "resetAccelBias", "resetMagBias"])).run(1000)
    return s.lines


def extreme(rng, i):
    """Drive one group of states or variances to its limit."""
    s = Scn(rng)
    kind = ["windoff", "mag", "wind", "gyro", "accvar", "wind", "gyro"][i % 7]
    par = dict(mag_fusion_type=2 if kind == "mag" else 0, check_mag_strength=0)
    if kind == "accvar":
        par.update(switch_on_accel_bias=rng.choice([0.97, 4.0]), accel_bias_p_noise=1.0, acc_bias_lim=2.0)
    if kind in ("wind", "gyro"):
        par.update(tas_innov_gate=100.0, gps_vel_innov_gate=100.0, gps_pos_innov_gate=100.0, heading_innov_gate=100.0, initial_wind_uncertainty=20.0)
    if kind == "mag":
        par.update(mag_innov_gate=100.0)
    world(s, [GPS], {"gps"} | ({"tas"} if kind in ("windoff", "wind") else set()), **par)
    s.k("fw", 0, "beta", 0, "acc.noise", 0.02)
    s.call("gpshealth", 1000000).run(4500)
    takeoff(s, 1.5, 2000)
    if kind == "accvar":
        s.run(4000)
    if kind == "mag":
        s.k("mag.scale", rng.choice([3.5, 5])).run(6000)
    elif kind == "wind":
        s.k("vn", 12).run(5000).k("wn", rng.choice([-180, 180])).run(9000)
    elif kind == "gyro":
        sg = rng.choice([-1, 1])
        for b in (0.2, 0.35, 0.5, 0.7):
            s.k("gyr.bz", sg * b).run(5000)
    else:
        s.k("vn", 8, "ve", 5).run(6000)
        if kind != "accvar":
            s.k("tas.on", 0).run(13000)
    campaign(s, 2000)
    return s.lines


def main():
    c = Check("C24")
    c.exhaustive("LimitsMC")
    b = c.build("ekfsim", EKF_SOURCES)
    sc = [script(c.rng, 40000 if c.thorough else 6000) for _ in range(150 if c.thorough else 24)]
    sc += [extreme(c.rng, i) for i in range(100 if c.thorough else 14)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "LimitsTrace", 24 if c.thorough else 6, args=["td", "cs", "cov", "rcq"])
    c.finish(scripts=len(sc))


main()
