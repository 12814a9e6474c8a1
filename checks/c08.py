import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def main():
    c = Check("C08")
    c.exhaustive("GeoLookupMC")
    b = c.build("geo_lookup", ["geo_lookup/geo_mag_declination.cpp"])
    R = c.rng
    pts = []
    # every node of the table, and inside every cell: near each corner and random interior points
    for i in range(-9, 10):
        for j in range(-18, 19):
            pts.append((i * 1000, j * 1000))
            if i < 9 and j < 18:
                pts += [(i * 1000 + 1, j * 1000 + 1), (i * 1000 + 999, j * 1000 + 999)]
                for _ in range(20 if c.thorough else 4):
                    pts.append((i * 1000 + R.randrange(1000), j * 1000 + R.randrange(1000)))
    # outside the nominal ranges: wrap and clamp
    for _ in range(8000 if c.thorough else 1500):
        pts.append((R.randrange(-12000, 12001), R.choice([-1, 1]) * R.randrange(17000, 53999)))
    for lat in range(-9100, 9101, 130):
        for lon in (-18000, 18000, -17999, 17999, -18001, 18001, -36000, 36000, 35999, -35999, 19000, -19000):
            pts.append((lat, lon))
    R.shuffle(pts)
    sc = [["new"] + ["q %d %d" % p for p in pts[k::40]] for k in range(40)]
    c.samples = ["query lat %.2f lon %.2f deg" % (p[0] / 100, p[1] / 100) for p in pts[:5]]
    trace_check(c, b, sc, "GeoLookupTrace", 6)
    c.finish(points=len(pts))


main()
