import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def random_ops(rng, n):
    """Unstructured call sequences: any capacity, clustered and far-apart times, requests at awkward points."""
    out = ["new %d" % rng.choice([0, 1, 2, 3, 4, 9, 12, 30, 255])]
    now = rng.choice([0, 0, 50000, 1000000])
    times = []
    for _ in range(n):
        x = rng.random()
        if x < 0.5:
            now += rng.choice([0, 1, 4000, 10000, 10000, 33000, 99999, 100000, 250000])
            times.append(now)
            out.append("push %d" % now)
        elif x < 0.985:
            base = rng.choice(times[-14:] + [now]) if times else now
            T = base + rng.choice([0, 1, -1, 9999, 99999, 100000, 100001, 5000, -5000, 50000])
            out.append("pop %d" % max(T, 0))
        else:
            out.append("alloc %d" % rng.choice([0, 1, 2, 5, 9, 12, 255]))
    return out


def main():
    c = Check("C01")
    c.exhaustive("RingBufferMC")
    b = c.build("ringbuffer")
    scripts = []
    gen = c.simulate("RingBufferGen", num=400 if c.thorough else 60, depth=62)
    for h in gen:
        scripts.append(["new 0"] + ["%s %d" % (o, v) for o, v in h])
    c.rng.shuffle(scripts)
    scripts = scripts[:400 if c.thorough else 100]
    ngen = len(scripts)
    for _ in range(3000 if c.thorough else 250):
        scripts.append(random_ops(c.rng, 80))
    trace_check(c, b, scripts, "RingBufferTrace", 8 if c.thorough else 3)
    c.samples = [" ; ".join(scripts[0][:12]), " ; ".join(scripts[-1][:12])]
    c.finish(generated_behaviours=ngen, random_sequences=len(scripts) - ngen)


main()
