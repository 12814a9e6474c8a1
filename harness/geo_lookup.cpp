// stdin: "new" | "q lat_cdeg lon_cdeg"
#include "jlog.h"
#include <cstring>
#include <geo_lookup/geo_mag_declination.h>
int main()
{
	char op[16]; int a, b;
	while (scanf("%15s", op) == 1) {
		if (!strcmp(op, "new")) { Rec("new").out(stdout); continue; }
		if (scanf("%d %d", &a, &b) != 2) { return 3; }
		const float la = (float)(a * 0.01), lo = (float)(b * 0.01);
		Rec r("q"); r.i("lat", a).i("lon", b).f("drad", get_mag_declination_radians(la, lo), 2e5).f("ddeg", get_mag_declination_degrees(la, lo), 1e4)
		.f("irad", get_mag_inclination_radians(la, lo), 2e5).f("ideg", get_mag_inclination_degrees(la, lo), 1e4)
		.f("sg", get_mag_strength_gauss(la, lo), 2e5).f("st", get_mag_strength_tesla(la, lo), 2e9);
		r.out(stdout);
	}
}
