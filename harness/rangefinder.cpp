// Drives the real SensorRangeFinder. stdin ops -> ndjson with all observable outputs.
#include "jlog.h"
#include <cstring>
#include <memory>
#include <sensor_range_finder.hpp>
using estimator::sensor::SensorRangeFinder;
int main()
{
	char line[512]; std::unique_ptr<SensorRangeFinder> s;
	while (fgets(line, sizeof line, stdin)) {
		char op[32]; double a = 0, b = 0, d = 0, e = 0, f = 0; sscanf(line, "%31s %lf %lf %lf %lf %lf", op, &a, &b, &d, &e, &f);
		Rec r(op);
		if (!strcmp(op, "new")) { s.reset(new SensorRangeFinder()); r.out(stdout); continue; }
		if (!strcmp(op, "sample")) { estimator::rangeSample m{}; m.time_us = (uint64_t)a; m.rng = (float)(b * 0.001); m.quality = (int8_t)d; s->setSample(m); r.i("t", a).i("r", b).i("q", d); }
		else if (!strcmp(op, "ready")) { s->setDataReadiness(a != 0); r.b("v", a != 0); }
		else if (!strcmp(op, "validity")) { s->setValidity(a != 0); r.b("v", a != 0); }
		else if (!strcmp(op, "setrange")) { s->setRange((float)(a * 0.001)); r.i("r", a); }
		else if (!strcmp(op, "cfg")) { // lo_mm hi_mm hyst_ms cosMax1e4 pitch_mrad
			s->setLimits((float)(a * 0.001), (float)(b * 0.001)); s->setQualityHysteresis((float)(d * 0.001)); s->setCosMaxTilt((float)(e * 1e-4)); s->setPitchOffset((float)(f * 0.001));
			r.i("lo", a).i("hi", b).i("hyst", (long long)d * 1000).i("cosMax", e).f("so", std::sin(f * 0.001), 1e4).f("co", std::cos(f * 0.001), 1e4);
		} else if (!strcmp(op, "check")) { // t roll_mrad pitch_mrad
			const double ro = b * 0.001, pi = d * 0.001; const matrix::Dcmf R{matrix::Eulerf((float)ro, (float)pi, 0.7f)};
			s->runChecks((uint64_t)a, R); r.i("t", a).f("r20", -std::sin(pi), 1e4).f("r22", std::cos(ro) * std::cos(pi), 1e4);
		} else { return 3; }
		r.b("healthy", s->isHealthy()).b("dataHealthy", s->isDataHealthy()).b("regular", s->isRegularlySendingData()).f("cos", s->getCosTilt(), 1e4)
		 .f("dist", s->getDistBottom(), 1e3).f("rng", s->getRange(), 1e3).f("min", s->getValidMinVal(), 1e3).f("max", s->getValidMaxVal(), 1e3);
		r.out(stdout);
	}
}
