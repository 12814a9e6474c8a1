import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ekfscn import *

GROUPS = ["cs", "fs", "nf", "ratio", "soln", "valid", "terr"]
MODES = [GPS, GPS | OF, EVPOS | EVYAW, EVVEL, OF, GPS | DRAG, EVPOS | EVVEL, 0, GPS | GPSYAW, GPS | EVPOS]


def script(rng, ms, i):
    s = Scn(rng)
    modes = MODES[i % len(MODES)]
    world(s, [modes], {"gps", "rng", "tas", "aux"} | ({"flow"} if modes & OF else set()) | ({"ev"} if modes & (EVPOS | EVVEL | EVYAW) else set()) | ({"gyaw"} if modes & GPSYAW else set()),
          vdist_sensor_type=i % 4 if modes & (GPS | EVPOS) else rng.choice([0, 2]), gps_check_mask=0)
    s.k("imu.dt", 10000, "imu.jit", 0, "noise", 1, "fw", i % 2, "beta", i % 2)
    s.call("gpshealth", 1000000)
    s.run(rng.choice([4000, 6000]))
    takeoff(s, 1.5, 3000)
    if i % 2:
        s.k("vn", 12)
    campaign(s, ms, [n for n in FAULTS if n in s.present or n in ("mag", "baro", "imu")], 0.6)
    return s.lines


def main():
    c = Check("C22")
    c.exhaustive("StatusMC")
    b = c.build("ekfsim", EKF_SOURCES, flags=["-ftrivial-auto-var-init=pattern"])
    sc = [script(c.rng, 120000 if c.thorough else 30000, i) for i in range(400 if c.thorough else 40)]
    c.samples = [" ; ".join(sc[0][:12])]
    trace_check(c, b, sc, "StatusTrace", 40 if c.thorough else 8, args=GROUPS)
    c.finish(scripts=len(sc))


main()
