// Drives geo/geo.cpp. Positions are given in degrees. Reference geometry is computed here with vectors on the unit sphere.
// Units logged: metres*100 (cm) for short ranges, metres for long; angles 1e-4 rad; lat/lon differences 1e-7 deg.
#include "jlog.h"
#include <cstring>
#include <geo/geo.h>
static const double R = 6371000.0;
static double rad(double d) { return d * M_PI / 180; }
struct V { double x, y, z; };
static V unit(double lat, double lon) { return {cos(rad(lat)) * cos(rad(lon)), cos(rad(lat)) * sin(rad(lon)), sin(rad(lat))}; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double norm(V a) { return sqrt(dot(a, a)); }
static V north(double lat, double lon) { return {-sin(rad(lat)) * cos(rad(lon)), -sin(rad(lat)) * sin(rad(lon)), cos(rad(lat))}; }
static V east(double lon) { return {-sin(rad(lon)), cos(rad(lon)), 0}; }
static double ang(V a, V b) { return atan2(norm(cross(a, b)), dot(a, b)); }
static double dist(double a, double b, double c, double d) { return R * ang(unit(a, b), unit(c, d)); }
static double brg(double a, double b, double c, double d) { V p = unit(c, d); return atan2(dot(p, east(b)), dot(p, north(a, b))); }
static double wrap180(double d) { while (d > 180) { d -= 360; } while (d < -180) { d += 360; } return d; }
static double wrappi(double d) { while (d > M_PI) { d -= 2 * M_PI; } while (d < -M_PI) { d += 2 * M_PI; } return d; }
int main()
{
	char line[512];
	map_projection_reference_s ref[2]; double l0[2] = {}, n0[2] = {};
	memset(ref, 0, sizeof ref);
	while (fgets(line, sizeof line, stdin)) {
		char op[32]; double a[8] = {}; int n = sscanf(line, "%31s %lf %lf %lf %lf %lf %lf %lf %lf", op, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7); (void)n;
		Rec r(op);
		const int k = a[0] > 0.5 ? 1 : 0;
		if (!strcmp(op, "new")) { ref[0] = map_projection_reference_s{}; ref[1] = map_projection_reference_s{}; ref[0].init_done = ref[1].init_done = false; }
		else if (!strcmp(op, "init")) {
			const int rc = a[3] < 0 ? map_projection_init(&ref[k], a[1], a[2]) : map_projection_init_timestamped(&ref[k], a[1], a[2], (uint64_t)a[3]);
			l0[k] = a[1]; n0[k] = a[2]; r.i("p", k).i("rc", rc).f("lat", a[1], 1e6).f("lon", a[2], 1e6).i("ts", a[3] < 0 ? 0 : a[3]);
		} else if (!strcmp(op, "ref")) {
			double x = 1234.5, y = 1234.5; const int rc = map_projection_reference(&ref[k], &x, &y);
			r.i("p", k).i("rc", rc).b("touched", x != 1234.5 || y != 1234.5).f("lat", rc ? 0 : x * 180 / M_PI, 1e6).f("lon", rc ? 0 : y * 180 / M_PI, 1e6)
			 .b("inited", map_projection_initialized(&ref[k])).i("ts", (long long)map_projection_timestamp(&ref[k]));
		} else if (!strcmp(op, "proj")) {
			float x = 12345.f, y = 12345.f; const int rc = map_projection_project(&ref[k], a[1], a[2], &x, &y);
			r.i("p", k).i("rc", rc).b("touched", x != 12345.f || y != 12345.f);
			const double d = dist(l0[k], n0[k], a[1], a[2]), b = brg(l0[k], n0[k], a[1], a[2]);
			double la = 1234.5, lo = 1234.5; const int rc2 = map_projection_reproject(&ref[k], x, y, &la, &lo);
			const bool t2 = la != 1234.5 || lo != 1234.5;
			// dlat/dlon in 1e-7 deg (saturated when far), x y in cm (near) and m (far), reference azimuthal equidistant coordinates in m
			r.f("dlat", a[1] - l0[k], 1e7).f("dlon", wrap180(a[2] - n0[k]), 1e7).i("coslat", Rec::fx(cos(rad((a[1] + l0[k]) / 2)), 1e4))
			 .f("xc", rc ? 0 : x, 100).f("yc", rc ? 0 : y, 100).f("x", rc ? 0 : x, 1).f("y", rc ? 0 : y, 1)
			 .f("ex", d * cos(b), 1).f("ey", d * sin(b), 1).f("d", d, 1)
			 .i("rc2", rc2).b("touched2", t2).f("back", rc ? 0 : dist(a[1], a[2], la, lo), 100);
		} else if (!strcmp(op, "rep")) {
			double la = 1234.5, lo = 1234.5; const int rc = map_projection_reproject(&ref[k], (float)a[1], (float)a[2], &la, &lo);
			r.i("p", k).i("rc", rc).b("touched", la != 1234.5 || lo != 1234.5);
			float x = 0, y = 0; if (!rc) { map_projection_project(&ref[k], la, lo, &x, &y); }
			const double d = rc ? 0 : dist(l0[k], n0[k], la, lo), b = rc ? 0 : brg(l0[k], n0[k], la, lo);
			r.f("x", a[1], 1).f("y", a[2], 1).f("rx", d * cos(b), 1).f("ry", d * sin(b), 1).f("bx", x, 1).f("by", y, 1).f("d", std::ceil(std::hypot(a[1], a[2])), 1)
			 .b("range", rc || (la >= -90.0 && la <= 90.0)).f("mlat", rc ? 0 : la - l0[k], 1e7).f("mlon", rc ? 0 : wrap180(lo - n0[k]), 1e7);
		}
		// ---- way-point functions: "pair lat1 lon1 lat2 lon2"
		else if (!strcmp(op, "pair")) {
			const double d = dist(a[0], a[1], a[2], a[3]), b = brg(a[0], a[1], a[2], a[3]);
			const V A = unit(a[0], a[1]), B = unit(a[2], a[3]); (void)A;
			float vn, ve, fn, fe, dxy, dz; get_vector_to_next_waypoint(a[0], a[1], a[2], a[3], &vn, &ve); get_vector_to_next_waypoint_fast(a[0], a[1], a[2], a[3], &fn, &fe);
			const float w = get_distance_to_point_global_wgs84(a[0], a[1], (float)a[4], a[2], a[3], (float)a[5], &dxy, &dz);
			const float g = get_distance_to_next_waypoint(a[0], a[1], a[2], a[3]), h = get_distance_to_next_waypoint(a[2], a[3], a[0], a[1]);
			const float be = get_bearing_to_next_waypoint(a[0], a[1], a[2], a[3]);
			double la, lo; add_vector_to_global_position(a[0], a[1], fn, fe, &la, &lo);
			r.f("d", g, 10).f("dr", h, 10).f("ed", d, 10).f("b", be, 1e4).f("eb", b, 1e4).b("same", a[0] == a[2] && a[1] == a[3])
			 .f("vn", vn, 10).f("ve", ve, 10).f("en", R * dot(B, north(a[0], a[1])), 10).f("ee", R * dot(B, east(a[1])), 10)
			 .f("fn", fn, 10).f("fe", fe, 10).f("dlat", (a[2] - a[0]), 1e7).f("dlon", wrap180(a[3] - a[1]), 1e7).f("coslat", cos(rad(a[0])), 1e4)
			 .f("w", w, 10).f("dxy", dxy, 10).f("dz", dz, 10).f("alt", a[4] - a[5], 10).f("slant", std::sqrt(d * d + (a[4] - a[5]) * (a[4] - a[5])), 10)
			 .f("backlat", (la - a[2]), 1e7).f("backlon", wrap180(lo - a[3]), 1e7).b("nowrap", std::fabs(a[3] - a[1]) < 180);
		} else if (!strcmp(op, "wp")) {          // wp lat lon bearing dist
			double la, lo; waypoint_from_heading_and_distance(a[0], a[1], (float)a[2], (float)a[3], &la, &lo);
			const double d = dist(a[0], a[1], la, lo), b = brg(a[0], a[1], la, lo);
			r.f("want", a[3], 10).f("wb", wrappi(a[2]), 1e4).f("got", d, 10).f("gb", b, 1e4)
			 .f("d", get_distance_to_next_waypoint(a[0], a[1], la, lo), 10).f("b", get_bearing_to_next_waypoint(a[0], a[1], la, lo), 1e4);
		} else if (!strcmp(op, "online")) {       // online latA lonA latB lonB dist
			double la, lo; create_waypoint_from_line_and_dist(a[0], a[1], a[2], a[3], (float)a[4], &la, &lo);
			r.f("want", a[4], 10).f("got", dist(a[0], a[1], la, lo), 10).f("gb", brg(a[0], a[1], la, lo), 1e4).f("wb", brg(a[0], a[1], a[2], a[3]), 1e4)
			 .b("atA", la == a[0] && lo == a[1]);
		} else if (!strcmp(op, "line")) {         // line lat lon  n e  ns es  ne ee   (metres from the base point)
			auto LA = [&](double nn) { return a[0] + nn / R * 180 / M_PI; };
			auto LO = [&](double ee) { return a[1] + ee / (R * cos(rad(a[0]))) * 180 / M_PI; };
			crosstrack_error_s c{}; c.past_end = true; c.distance = 77; c.bearing = 77;
			const int rc = get_distance_to_line(&c, LA(a[2]), LO(a[3]), LA(a[4]), LO(a[5]), LA(a[6]), LO(a[7]));
			r.raw("p", "[" + std::to_string(Rec::fx(a[2], 10)) + "," + std::to_string(Rec::fx(a[3], 10)) + "]").raw("s", "[" + std::to_string(Rec::fx(a[4], 10)) + "," + std::to_string(Rec::fx(a[5], 10)) + "]")
			 .raw("t", "[" + std::to_string(Rec::fx(a[6], 10)) + "," + std::to_string(Rec::fx(a[7], 10)) + "]").i("rc", rc).b("past", c.past_end).f("dist", c.distance, 10)
			 .f("cb", cos(c.bearing), 1e4).f("sb", sin(c.bearing), 1e4).f("b", c.bearing, 1e4);
		} else if (!strcmp(op, "circ")) {         // circ lat lon  n e  radius   (full circle around the base point)
			crosstrack_error_s c{}; c.past_end = true; c.distance = 77; c.bearing = 77;
			const double la = a[0] + a[2] / R * 180 / M_PI, lo = a[1] + a[3] / (R * cos(rad(a[0]))) * 180 / M_PI;
			const int rc = get_distance_to_arc(&c, la, lo, a[0], a[1], (float)a[4], -(float)M_PI, 2 * (float)M_PI);
			r.raw("p", "[" + std::to_string(Rec::fx(a[2], 10)) + "," + std::to_string(Rec::fx(a[3], 10)) + "]").f("rad", a[4], 10).i("rc", rc).b("past", c.past_end).f("dist", c.distance, 10)
			 .f("cb", cos(c.bearing), 1e4).f("sb", sin(c.bearing), 1e4).f("b", c.bearing, 1e4);
		} else if (!strcmp(op, "local")) {
			float dxy = 0, dz = 0; const float d = mavlink_wpm_distance_to_point_local(a[0], a[1], a[2], a[3], a[4], a[5], &dxy, &dz);
			r.raw("u", "[" + std::to_string(Rec::fx(a[0] - a[3], 10)) + "," + std::to_string(Rec::fx(a[1] - a[4], 10)) + "," + std::to_string(Rec::fx(a[2] - a[5], 10)) + "]").f("d", d, 10).f("dxy", dxy, 10).f("dz", dz, 10);
		} else { return 3; }
		r.out(stdout);
	}
}
