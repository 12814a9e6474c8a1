// Feeds raw IMU samples to the real down-sampler and records inputs with outputs.
// stdin: "new" | "raw dt_us dtv_us ax ay az vx vy vz clipmask get"     stdout: ndjson
#include "jlog.h"
#include <cstring>
#include <memory>
#include <imu_down_sampler.hpp>
// rotation matrix of a rotation vector (Rodrigues, double precision, independent of the matrix library)
static void rodrigues(const double v[3], double R[9])
{
	const double a = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
	const double s = a < 1e-9 ? 1 : std::sin(a) / a, c = a < 1e-9 ? 0.5 : (1 - std::cos(a)) / (a * a);
	const double K[9] = {0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0};
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		double kk = 0; for (int k = 0; k < 3; k++) { kk += K[3 * i + k] * K[3 * k + j]; }
		R[3 * i + j] = (i == j) + s * K[3 * i + j] + c * kk;
	}
}
static std::string arr(const double *v, int n, double sc) { std::string s = "["; for (int i = 0; i < n; i++) { s += (i ? "," : "") + std::to_string(Rec::fx(v[i], sc)); } return s + "]"; }
static std::string clip3(const bool *c) { std::string s = "["; for (int i = 0; i < 3; i++) { s += (i ? "," : ""); s += c[i] ? "true" : "false"; } return s + "]"; }
int main()
{
	char line[512]; std::unique_ptr<ImuDownSampler> d; uint64_t t = 0;
	while (fgets(line, sizeof line, stdin)) {
		if (!strncmp(line, "new", 3)) { d.reset(new ImuDownSampler(0.01f)); t = 1000; Rec("new").out(stdout); continue; }
		double a[3], v[3]; int dt, dtv, cm, get;
		if (sscanf(line, "raw %d %d %lf %lf %lf %lf %lf %lf %d %d", &dt, &dtv, a, a + 1, a + 2, v, v + 1, v + 2, &cm, &get) != 10) { return 3; }
		t += dt;
		estimator::imuSample s{}; s.time_us = t; s.delta_ang_dt = dt * 1e-6f; s.delta_vel_dt = dtv * 1e-6f;
		for (int i = 0; i < 3; i++) { s.delta_ang(i) = (float)a[i]; s.delta_vel(i) = (float)v[i]; s.delta_vel_clipping[i] = cm >> i & 1; }
		const bool ready = d->update(s);
		double R[9]; rodrigues(a, R);
		Rec r("raw"); r.i("ta", dt * 100LL).i("tv", dtv * 100LL).i("t", t).raw("clip", clip3(s.delta_vel_clipping)).raw("R", arr(R, 9, 1e4)).raw("dv", arr(v, 3, 1e3)).b("ready", ready).b("get", get);
		if (ready && get) {
			const estimator::imuSample o = d->getDownSampledImuAndTriggerReset();
			double oa[3], ov[3], oR[9]; for (int i = 0; i < 3; i++) { oa[i] = o.delta_ang(i); ov[i] = o.delta_vel(i); }
			rodrigues(oa, oR);
			r.f("ota", o.delta_ang_dt, 1e8).f("otv", o.delta_vel_dt, 1e8).i("ot", o.time_us).raw("oclip", clip3(o.delta_vel_clipping)).raw("oR", arr(oR, 9, 1e4)).raw("odv", arr(ov, 3, 1e3));
		}
		r.out(stdout);
	}
}
