// Drives the real WindEstimator. stdin ops -> ndjson.
// "par wind_sigma tas_gate beta_gate enforced tas_noise beta_noise" | "update t" | "tas t tas vn ve vd vvar" | "beta t vn ve vd roll pitch yaw"
#include "jlog.h"
#include <cstring>
#include <memory>
#include <WindEstimator.hpp>
static double rad(double d) { return d * M_PI / 180; }
int main()
{
	char line[512]; std::unique_ptr<WindEstimator> w; int tg = 3, bg = 1; double tv = 1.4, bv = 0.5;
	while (fgets(line, sizeof line, stdin)) {
		char op[32]; double a[8] = {}; sscanf(line, "%31s %lf %lf %lf %lf %lf %lf %lf %lf", op, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7);
		Rec r(op);
		float p[2] = {}; double ps = 0; if (w) { w->get_wind(p); ps = w->get_tas_scale(); }
		if (!strcmp(op, "new")) { w.reset(new WindEstimator()); tg = 3; bg = 1; tv = 1.4; bv = 0.5; r.out(stdout); continue; }
		if (!strcmp(op, "par")) {
			w->set_wind_p_noise((float)a[0]); w->set_tas_gate((uint8_t)a[1]); w->set_beta_gate((uint8_t)a[2]); w->enforce_airspeed_scale((float)a[3]); w->set_tas_noise((float)a[4]); w->set_beta_noise((float)a[5]);
			w->set_tas_scale_p_noise((float)a[6]);
			tg = a[1]; bg = a[2]; tv = a[4] * a[4]; bv = a[5] * a[5]; r.b("std", a[0] <= 0.31 && a[6] <= 0.0002 && a[1] <= 10).f("q", a[0] * a[0], 1e4).i("enf", a[3] < 0 ? -1 : (long long)std::lround(a[3] * 1e4)); r.out(stdout); continue;
		}
		double innov = 0, iv = 1, gate = 1, thr = 0.05; matrix::Vector3f v; bool nanin = false; double post = 0, noise = 0;
		if (!strcmp(op, "update")) { w->update((uint64_t)a[0]); }
		else if (!strcmp(op, "tas")) {
			v = matrix::Vector3f(a[2] * 0.01, a[3] * 0.01, a[4] * 0.01); nanin = a[1] < -90000 && w->is_estimate_valid(); if (a[1] < -90000) a[1] = 1500;
			w->fuse_airspeed((uint64_t)a[0], nanin ? NAN : (float)(a[1] * 0.01), v, matrix::Vector2f(a[5], a[5]));
			innov = w->get_tas_innov(); iv = w->get_tas_innov_var(); gate = tg; noise = tv; { float n[2]; w->get_wind(n); post = a[1] * 0.01 - w->get_tas_scale() * std::sqrt((v(0) - n[0]) * (v(0) - n[0]) + (v(1) - n[1]) * (v(1) - n[1]) + v(2) * v(2)); } r.i("tas", nanin ? 0 : a[1]); thr = 0.8;
		} else if (!strcmp(op, "beta")) {
			v = matrix::Vector3f(a[1] * 0.01, a[2] * 0.01, a[3] * 0.01);
			const double cr = cos(rad(a[4])), sr = sin(rad(a[4])), cp = cos(rad(a[5])), sp = sin(rad(a[5])), cy = cos(rad(a[6])), sy = sin(rad(a[6]));
			const matrix::Quatf q{matrix::Eulerf(rad(a[4]), rad(a[5]), rad(a[6]))};
			w->fuse_beta((uint64_t)a[0], v, q);
			const double x = v(0) - p[0], y = v(1) - p[1], z = v(2);
			const double rx = cp * cy * x + cp * sy * y - sp * z;
			const double ry = (sr * sp * cy - cr * sy) * x + (sr * sp * sy + cr * cy) * y + sr * cp * z;
			r.f("rx", rx, 1e3).f("bexp", -ry / rx, 1e4);
			innov = w->get_beta_innov(); iv = w->get_beta_innov_var(); gate = bg; thr = 0.05; noise = bv; { float n[2]; w->get_wind(n); const double X = v(0) - n[0], Y = v(1) - n[1]; post = -((sr * sp * cy - cr * sy) * X + (sr * sp * sy + cr * cy) * Y + sr * cp * z) / (cp * cy * X + cp * sy * Y - sp * z); }
		} else { return 3; }
		float x[2], vv[2]; w->get_wind(x); w->get_wind_var(vv);
		const double ratio = innov * innov / (gate * gate * iv);
		r.i("t", a[0]).b("nanin", nanin).raw("vel", "[" + std::to_string(lround(v(0) * 100)) + "," + std::to_string(lround(v(1) * 100)) + "," + std::to_string(lround(v(2) * 100)) + "]")
		 .f("spd", v.norm(), 100).f("ratio", std::isnan(ratio) ? 0 : ratio, 1e4).f("iv", iv, 1e4).b("big", std::fabs(innov) > thr).b("moved", x[0] != p[0] || x[1] != p[1] || w->get_tas_scale() != (float)ps).f("post", post, 1e4).f("pex", innov * noise / iv, 1e4).f("in4", innov, 1e4)
		 .b("valid", w->is_estimate_valid()).b("rst", w->get_wind_estimator_reset())
		 .raw("w", "[" + std::to_string(Rec::fx(x[0], 100)) + "," + std::to_string(Rec::fx(x[1], 100)) + "]")
		 .raw("v", "[" + std::to_string(Rec::fx(vv[0], 1e4)) + "," + std::to_string(Rec::fx(vv[1], 1e4)) + "]")
		 .f("s", w->get_tas_scale(), 1e4).f("ti", w->get_tas_innov(), 100).f("bi", w->get_beta_innov(), 1e4);
		r.out(stdout);
	}
}
