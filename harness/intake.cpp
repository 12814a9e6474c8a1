// Drives the sensor interface of the estimator (buffers, rate limits, delays) on its own and reports what reaches the horizon.
// stdin: new T0 | par NAME V | imu T DT | mag T V | baro T V | gps T FIX YAWOFF V | tas/rng/flow/ev/aux T V | ok B (origin available)
// Times are relative to T0 (us).  Every imu line that completes a filter period pops all buffers at the horizon.
#include "jlog.h"
#include <cstring>
#include <memory>
#include <string>
#include <estimator_interface.h>
using namespace estimator;
#include <unistd.h>
static FILE *REC;
struct Probe : public EstimatorInterface {
	bool collected{true}; int ncollect{0};
	bool collect_gps(const gps_message &) override { ncollect++; return collected; }
	bool init(uint64_t t) override { return initialise_interface(t); }
	float compensateBaroForDynamicPressure(const float b) const override { return b; }
	bool ready() const { return _imu_updated; }
	uint64_t t0{0}; std::string out;
	template <class B, class S> void pop(const char *n, B &b, S &s, float (*val)(const S &, const Probe &))
	{
		if (b.pop_first_older_than(_imu_sample_delayed.time_us, &s)) {
			if (!out.empty()) { out += ','; }
			out += std::string("[\"") + n + "\"," + std::to_string((long long)(s.time_us - t0)) + "," + std::to_string(Rec::fx(val(s, *this), 1e3)) + "]";
		}
	}
	void popAll()
	{
		out.clear();
		pop<RingBuffer<gpsSample>, gpsSample>("gps", _gps_buffer, _gps_sample_delayed, [](const gpsSample &s, const Probe &) {
			const bool c = s.vel(2) > 0; float x = 0, y = 0; map_projection_reference_s ref{}; map_projection_init_timestamped(&ref, 47.0, 8.0, 1); map_projection_project(&ref, 47.001, 8.002, &x, &y);
			const bool ok = s.vel(1) == 2 * s.vel(0) && s.hacc == 1.5f && s.vacc == 2.5f && s.sacc == 3.5f && fabsf(s.hgt - 123.456f) < 1e-3f && s.yaw == 0.25f && fabsf(s.pos(0) - (c ? x : 0)) < 0.02f && fabsf(s.pos(1) - (c ? y : 0)) < 0.02f;
			return ok ? s.vel(0) : (float)NAN; });
		pop<RingBuffer<magSample>, magSample>("mag", _mag_buffer, _mag_sample_delayed, [](const magSample &s, const Probe &) { return s.mag(0) == 9.f && fabsf(s.mag(2) - 7.f) < 1e-3f ? s.mag(1) : (float)NAN; });
		pop<RingBuffer<baroSample>, baroSample>("baro", _baro_buffer, _baro_sample_delayed, [](const baroSample &s, const Probe &) { return s.hgt; });
		rangeSample r; pop<RingBuffer<rangeSample>, rangeSample>("rng", _range_buffer, r, [](const rangeSample &s, const Probe &) { return s.quality == 50 ? s.rng : (float)NAN; });
		pop<RingBuffer<airspeedSample>, airspeedSample>("tas", _airspeed_buffer, _airspeed_sample_delayed, [](const airspeedSample &s, const Probe &) { return s.eas2tas == 1.5f ? s.true_airspeed : (float)NAN; });
		pop<RingBuffer<flowSample>, flowSample>("flow", _flow_buffer, _flow_sample_delayed, [](const flowSample &s, const Probe &) { return s.dt == 0.02f && s.quality == 200 && s.flow_xy_rad(1) == -s.flow_xy_rad(0) && s.gyro_xyz(2) == 0.5f ? s.flow_xy_rad(0) : (float)NAN; });
		pop<RingBuffer<extVisionSample>, extVisionSample>("ev", _ext_vision_buffer, _ev_sample_delayed, [](const extVisionSample &s, const Probe &) { return s.pos(0) == 3.f && s.vel(1) == 4.f && s.posVar(2) == 5.f && s.angVar == 6.f && s.vel_frame == velocity_frame_t::BODY_FRAME_FRD ? s.pos(2) : (float)NAN; });
		pop<RingBuffer<auxVelSample>, auxVelSample>("aux", _auxvel_buffer, _auxvel_sample_delayed, [](const auxVelSample &s, const Probe &) { return s.velVar(0) == 7.f ? s.vel(1) : (float)NAN; });
		pop<RingBuffer<dragSample>, dragSample>("drag", _drag_buffer, _drag_sample_delayed, [](const dragSample &s, const Probe &) { return s.accelXY(0); });
	}
	float yawoff() const { return _gps_yaw_offset; }
	bool vv() const { return _gps_speed_valid; }
	float gx() const { return _gps_sample_delayed.pos(0); }
	void origin() { map_projection_init_timestamped(&_pos_ref, 47.0, 8.0, 1); }
};
static bool setpar(parameters &p, const char *n, double v)
{
#define P(a) if (!strcmp(n, #a)) { p.a = (decltype(p.a))v; return true; }
	P(fusion_mode) P(vdist_sensor_type) P(sensor_interval_min_ms) P(mag_delay_ms) P(baro_delay_ms) P(gps_delay_ms) P(airspeed_delay_ms) P(flow_delay_ms) P(range_delay_ms) P(ev_delay_ms) P(auxvel_delay_ms) P(mag_fusion_type) P(range_aid)
	return false;
}
int main()
{
	REC = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) { return 3; }
	char line[300], op[16], nm[64]; std::unique_ptr<Probe> p; uint64_t t0 = 0; bool announced = false;
	while (fgets(line, sizeof line, stdin)) {
		double a = 0, b = 0, c = 0, d = 0;
		if (sscanf(line, "new %lf", &a) == 1) { p.reset(new Probe); t0 = (uint64_t)a; p->t0 = t0; p->origin(); announced = false; continue; }
		if (!p) { return 3; }
		if (sscanf(line, "par %63s %lf", nm, &a) == 2) {
			if (!setpar(*p->getParamHandle(), nm, a)) { return 3; }
			continue; }
		if (sscanf(line, "%15s %lf %lf %lf %lf", op, &a, &b, &c, &d) < 2) { return 3; }
		if (!announced) {
			announced = true; const parameters &q = *p->getParamHandle(); Rec r("new");
			r.i("mode", q.fusion_mode).i("vdist", q.vdist_sensor_type).i("imin", q.sensor_interval_min_ms).i("magt", q.mag_fusion_type).i("raid", q.range_aid);
			r.f("mag", q.mag_delay_ms, 1e3).f("baro", q.baro_delay_ms, 1e3).f("gps", q.gps_delay_ms, 1e3).f("tas", q.airspeed_delay_ms, 1e3).f("flow", q.flow_delay_ms, 1e3).f("rng", q.range_delay_ms, 1e3).f("ev", q.ev_delay_ms, 1e3).f("aux", q.auxvel_delay_ms, 1e3);
			r.out(REC);
		}
		const uint64_t t = t0 + (uint64_t)a; const float v = (float)(c == 0 && d == 0 ? b : b);
		if (!strcmp(op, "imu")) {
			imuSample m{}; m.time_us = t; m.delta_ang_dt = m.delta_vel_dt = (float)(b * 1e-6); m.delta_vel = Vector3f((float)(c * b * 1e-6), 0, 0); p->setIMUData(m);
			Rec r("imu"); r.i("t", (long long)a).b("up", p->ready()).i("td", (long long)(p->get_imu_sample_delayed().time_us - t0));
			if (p->ready()) { p->popAll(); }
			else { p->out.clear(); }
			r.f("ax", c, 1e3).i("dt", (long long)(b / 10)).raw("pop", "[" + p->out + "]").out(REC); continue;
		}
		if (!strcmp(op, "ok")) { p->collected = a != 0; continue; }
		Rec r(op); r.i("t", (long long)a).f("v", b, 1e3);
		if (!strcmp(op, "mag")) { magSample s; s.time_us = t; s.mag = Vector3f(9, v, 7); p->setMagData(s); }
		else if (!strcmp(op, "baro")) { baroSample s; s.time_us = t; s.hgt = v; p->setBaroData(s); }
		else if (!strcmp(op, "gps")) {
			gps_message g{}; g.time_usec = t; g.lat = 470010000; g.lon = 80020000; g.alt = 123456; g.fix_type = (uint8_t)c; g.vel_ned = Vector3f(v, 2 * v, p->collected ? 1.f : -1.f); g.vel_ned_valid = true; g.yaw = 0.25f; g.yaw_offset = d < -100 ? NAN : (float)d; g.eph = 1.5f; g.epv = 2.5f; g.sacc = 3.5f;
			const int n0 = p->ncollect; p->setGpsData(g); r.i("fix", (long long)c).b("acc", p->ncollect > n0).f("yo", p->yawoff(), 1e3).f("yi", d, 1e3); }
		else if (!strcmp(op, "tas")) { airspeedSample s; s.time_us = t; s.true_airspeed = v; s.eas2tas = 1.5f; p->setAirspeedData(s); }
		else if (!strcmp(op, "rng")) { rangeSample s; s.time_us = t; s.rng = v; s.quality = 50; p->setRangeData(s); }
		else if (!strcmp(op, "flow")) { flowSample s{}; s.time_us = t; s.flow_xy_rad = Vector2f(v, -v); s.gyro_xyz = Vector3f(0, 0, 0.5f); s.dt = 0.02f; s.quality = 200; p->setOpticalFlowData(s); }
		else if (!strcmp(op, "ev")) { extVisionSample s; s.time_us = t; s.pos = Vector3f(3, 0, v); s.vel = Vector3f(0, 4, 0); s.posVar = Vector3f(0, 0, 5); s.angVar = 6; s.vel_frame = velocity_frame_t::BODY_FRAME_FRD; p->setExtVisionData(s); }
		else if (!strcmp(op, "aux")) { auxVelSample s; s.time_us = t; s.vel = Vector3f(0, v, 0); s.velVar = Vector3f(7, 7, 7); p->setAuxVelData(s); }
		else { return 3; }
		r.out(REC);
	}
	fclose(REC);
}
