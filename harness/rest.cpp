// Vehicle-at-rest detection at the IMU interface.
// stdin: new T0 SCALER | air B | imu T DT DAX DAY DAZ DVX DVY DVZ
#include "jlog.h"
#include <cstring>
#include <memory>
#include <estimator_interface.h>
using namespace estimator;
#include <unistd.h>
struct Probe : public EstimatorInterface {
	bool collect_gps(const gps_message &) override { return false; }
	bool init(uint64_t t) override { return initialise_interface(t); }
	float compensateBaroForDynamicPressure(const float b) const override { return b; }
};
int main()
{
	FILE *REC = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) { return 3; }
	char line[300]; std::unique_ptr<Probe> p; double t0 = 0, s = 1; double pa[3] = {0}, pv[3] = {0};
	while (fgets(line, sizeof line, stdin)) {
		double t, dt, a[3], v[3];
		if (sscanf(line, "new %lf %lf", &t, &dt) == 2) { p.reset(new Probe); t0 = t; s = dt; p->getParamHandle()->is_moving_scaler = (float)s; memset(pa, 0, sizeof pa); memset(pv, 0, sizeof pv);
			Rec r("new"); r.i("t0", (long long)t0).f("sc", s, 1e3); r.out(REC); continue; }
		if (!p) { return 3; }
		if (sscanf(line, "air %lf", &t) == 1) { p->set_in_air_status(t != 0); Rec r("air"); r.b("v", t != 0); r.out(REC); continue; }
		if (sscanf(line, "imu %lf %lf %lf %lf %lf %lf %lf %lf", &t, &dt, a, a + 1, a + 2, v, v + 1, v + 2) != 8) { return 3; }
		imuSample m{}; m.time_us = (uint64_t)(t0 + t); m.delta_ang_dt = m.delta_vel_dt = (float)(dt * 1e-6);
		double da = 0, dv = 0, w = 0;
		for (int i = 0; i < 3; i++) { m.delta_ang(i) = (float)a[i]; m.delta_vel(i) = (float)v[i]; da += (a[i] - pa[i]) * (a[i] - pa[i]); dv += (v[i] - pv[i]) * (v[i] - pv[i]); w += a[i] * a[i]; pa[i] = a[i]; pv[i] = v[i]; }
		p->setIMUData(m);
		Rec r("imu"); r.i("t", (long long)t).b("rest", p->isVehicleAtRest()).f("da", std::sqrt(da) * 4e4, 1e4).f("dv", std::sqrt(dv) * 2.1e2, 1e4).f("w", std::sqrt(w) * 20, 1e9);
		r.f("g", p->getImuVibrationMetrics()(1) * 4e4, 1e4).f("a", p->getImuVibrationMetrics()(2) * 2.1e2, 1e4);
		r.out(REC);
	}
	fclose(REC);
}
