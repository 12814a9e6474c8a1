import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def script(rng, n):
    """Regular, jittered and badly irregular IMU streams; small and large rotations; clipping; missed retrievals."""
    out = ["new"]
    style = rng.choice(["reg", "jit", "wild", "slow", "tiny"])
    base = rng.choice([1000, 1250, 2000, 2500, 3333, 4000, 5000, 8000])
    amax = rng.choice([0.0, 0.01, 0.3, 1.0, 1.5])
    vmax = rng.choice([0.1, 1.0, 8.0])
    pget = rng.choice([1.0, 1.0, 0.8])
    for _ in range(n):
        dt = {"reg": base, "jit": base + rng.randrange(-base // 5, base // 5), "wild": rng.choice([200, 1000, 4000, 9000, 14000, 25000]),
              "slow": rng.choice([11000, 16000, 20000]), "tiny": 400}[style]
        dtv = dt if rng.random() < 0.7 else max(100, dt + rng.randrange(-100, 400))
        a = [rng.uniform(-amax, amax) for _ in range(3)]
        if rng.random() < 0.3:
            k = rng.randrange(3)
            a = [x if i == k else 0.0 for i, x in enumerate(a)]
        v = [rng.uniform(-vmax, vmax) for _ in range(3)]
        cm = rng.randrange(8) if rng.random() < 0.15 else 0
        out.append("raw %d %d %.6f %.6f %.6f %.4f %.4f %.4f %d %d" % (dt, dtv, *a, *v, cm, 1 if rng.random() < pget else 0))
    return out


def main():
    c = Check("C03")
    c.exhaustive("ImuDownSamplerMC")
    b = c.build("imu_ds", ["EKF/imu_down_sampler.cpp"])
    sc = [script(c.rng, 150) for _ in range(1500 if c.thorough else 90)]
    c.samples = [" ; ".join(sc[0][:5])]
    trace_check(c, b, sc, "ImuDownSamplerTrace", 8 if c.thorough else 4)
    c.finish()


main()
