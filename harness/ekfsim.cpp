// Scenario simulator for the whole filter: a script sets parameters, flies a synthetic vehicle, degrades its sensors and
// records one ndjson record per filter update, seen through the public interface only.
// argv: record groups to log.   stdin script, one command per line:
//   new SEED            fresh filter and simulator (knobs at defaults)
//   par NAME V          filter parameter          k NAME V    simulator knob
//   call NAME A...      public call on the filter  run MS      advance simulated time
#include "jlog.h"
#include <cstring>
#include <map>
#include <vector>
#include <deque>
#include <memory>
#include <algorithm>
#include <ekf.h>
#include <imu_down_sampler.hpp>
#include <geo_lookup/geo_mag_declination.h>
using namespace estimator;
#include <unistd.h>
static FILE *REC, *DEVNULL;
typedef std::map<std::string, double> Knobs;
static const double G0 = 9.80665;

struct V3 { double x{0}, y{0}, z{0}; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
static double nrm(V3 a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
struct M3 {
	double m[9];
	V3 operator*(V3 v) const { return {m[0] * v.x + m[1] * v.y + m[2] * v.z, m[3] * v.x + m[4] * v.y + m[5] * v.z, m[6] * v.x + m[7] * v.y + m[8] * v.z}; }
	M3 T() const { return {{m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]}}; }
	M3 operator*(const M3 &o) const { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[3 * i + j] = 0; for (int k = 0; k < 3; k++) { r.m[3 * i + j] += m[3 * i + k] * o.m[3 * k + j]; } } return r; }
};
static M3 rpy(double r, double p, double y)
{
	const double cr = cos(r), sr = sin(r), cp = cos(p), sp = sin(p), cy = cos(y), sy = sin(y);
	return {{cp * cy, sr * sp * cy - cr * sy, cr * sp * cy + sr * sy, cp * sy, sr * sp * sy + cr * cy, cr * sp * sy - sr * cy, -sp, sr * cp, cr * cp}};
}
static V3 rotvec(const M3 &R)
{
	V3 v{R.m[7] - R.m[5], R.m[2] - R.m[6], R.m[3] - R.m[1]};
	const double s = 0.5 * nrm(v), c = 0.5 * (R.m[0] + R.m[4] + R.m[8] - 1);
	const double a = atan2(s, c);
	return s < 1e-12 ? v * 0.5 : v * (a / (2 * s));
}
struct Truth { int64_t t; V3 p, v, a, w; double r, pi, y; M3 R() const { return rpy(r, pi, y); } };

// a filter constructed in memory filled with a given byte: what it does must not depend on what the memory held before
struct EkfDelete { void operator()(Ekf *p) const { p->~Ekf(); ::operator delete((void *)p); } };
static std::unique_ptr<Ekf, EkfDelete> newEkf(int fill) { void *m = ::operator new(sizeof(Ekf)); memset(m, fill, sizeof(Ekf)); return std::unique_ptr<Ekf, EkfDelete>(new (m) Ekf); }
struct Sim {
	std::unique_ptr<Ekf, EkfDelete> e;
	Knobs k;
	uint64_t rng{1};
	int64_t t{0}, t0{0}, next_imu{0};
	bool started{false};
	Truth s{};
	std::deque<Truth> hist;
	std::map<std::string, int64_t> next;
	std::string deliv;   // deliveries since the last record
	std::string calls;   // calls since the last record
	std::vector<std::string> groups;
	V3 wgrav_da, prev_v; M3 prevR;
	double imu_acc_dt{0}; V3 flow_da;
	double rng_hold{0};
	ImuDownSampler ds{EstimatorInterface::FILTER_UPDATE_PERIOD_S}; bool iu{false}; // tells which IMU samples complete a filter period
	V3 acc_dv, acc_da; double acc_dt{0}; int acc_clip{0}, nraw{0};

	double K(const char *n) const { auto i = k.find(n); return i == k.end() ? 0.0 : i->second; }
	bool on(const char *n) const { return K(n) != 0; }
	double u() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (rng >> 11) * (1.0 / 9007199254740992.0); }
	double gs() { double x = 0; for (int i = 0; i < 12; i++) { x += u(); } return x - 6; }
	bool has(const char *g) const { for (auto &x : groups) if (x == g) { return true; } return false; }
	const Truth &at(int64_t tt) const { for (auto i = hist.rbegin(); i != hist.rend(); ++i) if (i->t <= tt) { return *i; } return hist.empty() ? s : hist.front(); }
	void dl(const char *n, int64_t tm, const std::string &extra = "") { if (!deliv.empty()) { deliv += ','; } deliv += std::string("[\"") + n + "\"," + std::to_string(tm - t0) + extra + "]"; }
	void init(uint64_t seed, const std::vector<std::string> &g, int fill = 0)
	{
		groups = g; rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 5; i++) { u(); }
		e = newEkf(fill); t0 = 1000000; t = t0; started = false;
		k = {{"lat", 47.3566094}, {"lon", 8.5190237}, {"alt", 488.0}, {"imu.dt", 10000}, {"imu.on", 1}, {"decim", 1},
			{"gps.on", 1}, {"gps.int", 200000}, {"gps.fix", 3}, {"gps.nsats", 16}, {"gps.pdop", 1}, {"gps.eph", 0.5}, {"gps.epv", 0.8}, {"gps.sacc", 0.2}, {"gps.velvalid", 1}, {"gps.yaw", 0},
			{"mag.on", 1}, {"mag.int", 25000}, {"mag.scale", 1}, {"baro.on", 1}, {"baro.int", 25000}, {"baro.alt", 100},
			{"rng.on", 0}, {"rng.int", 50000}, {"rng.q", 100}, {"rng.max", 20}, {"rng.min", 0.2}, {"flow.on", 0}, {"flow.int", 20000}, {"flow.q", 255}, {"flow.scale", 1}, {"flow.max", 5}, {"flow.gyro", 1},
			{"ev.on", 0}, {"ev.int", 33000}, {"ev.var", 0.01}, {"ev.vvar", 0.01}, {"ev.avar", 0.005}, {"tas.on", 0}, {"tas.int", 100000}, {"tas.scale", 1}, {"aux.on", 0}, {"aux.int", 100000}, {"aux.var", 0.04},
			{"terrain", 0}, {"noise", 0}, {"flags", 1}, {"tau", 0.5}, {"upd", 1}, {"rec", 1}};
	}
	void start()
	{
		started = true; s = Truth(); s.t = t; s.p = {K("p0n"), K("p0e"), K("p0d")}; s.y = K("yaw0"); s.r = K("roll"); s.pi = K("pitch"); s.v = {K("v0n"), K("v0e"), K("v0d")};
		prev_v = s.v; prevR = s.R(); next_imu = t + (int64_t)K("imu.dt");
		for (const char *n : {"gps", "mag", "baro", "rng", "flow", "ev", "tas", "aux"}) { next[n] = t + (int64_t)K((std::string(n) + ".ph").c_str()); }
	}
	// first order lag from the present value towards the commanded one
	static double lag(double x, double c, double tau, double dt) { return tau <= 0 ? c : x + (c - x) * std::min(1.0, dt / tau); }
	void step_truth(double dt)
	{
		const double tau = K("tau");
		V3 ac{K("an"), K("ae"), K("ad")};
		if (on("velmode")) { // track commanded velocity
			ac = (V3{K("vn"), K("ve"), K("vd")} - s.v) * 0.8; const double n = nrm(ac), lim = 3.0; if (n > lim) { ac = ac * (lim / n); }
		}
		if (on("circ")) { const double w = K("circ"); ac = {-s.v.y * w, s.v.x * w, 0}; } // coordinated turn of the velocity vector
		if (on("shake")) { ac = ac + V3{K("shake") * sin(6.0 * t * 1e-6), K("shake") * cos(4.0 * t * 1e-6), 0}; }
		s.a = on("circ") ? ac : V3{lag(s.a.x, ac.x, tau, dt), lag(s.a.y, ac.y, tau, dt), lag(s.a.z, ac.z, tau, dt)};
		s.p = s.p + s.v * dt + s.a * (0.5 * dt * dt);
		s.v = s.v + s.a * dt;
		const double ps = s.p.z;
		if (on("ground") && ps > K("terrain") ) { s.p.z = K("terrain"); if (s.v.z > 0) { s.v.z = s.v.z < 1e-3 ? 0 : s.v.z * exp(-dt / 0.05); } }
		s.r = lag(s.r, K("roll"), tau, dt); s.pi = lag(s.pi, K("pitch"), tau, dt);
		if (on("course")) { double d = atan2(s.v.y, s.v.x) - s.y; d = atan2(sin(d), cos(d)); s.y += d * std::min(1.0, dt / 0.2); }
		s.y += K("yawrate") * dt;
		if (on("wobble")) { s.r += 0.2 * cos(t * 1e-6 * 3) * 3 * dt * K("wobble"); s.pi += 0.15 * cos(t * 1e-6 * 2) * 2 * dt * K("wobble"); }
	}
	void imu()
	{
		const double dt = K("imu.dt") * 1e-6;
		step_truth(dt);
		s.t = t;
		const M3 R = s.R();
		const V3 da = rotvec(prevR.T() * R);
		s.w = da * (1 / dt);
		// specific force increment expressed in the new body frame
		V3 dv = R.T() * ((s.v - prev_v) - V3{0, 0, G0 * dt});
		prev_v = s.v; prevR = R;
		hist.push_back(s); if (hist.size() > 600) { hist.pop_front(); }
		flow_da = flow_da + da; imu_acc_dt += dt;
		dv = dv + V3{K("acc.bx"), K("acc.by"), K("acc.bz")} * dt;
		V3 dm = da + V3{K("gyr.bx"), K("gyr.by"), K("gyr.bz")} * dt;
		if (on("earth")) { const double W = 7.292115e-5, la = K("lat") * 3.14159265358979 / 180; dm = dm + R.T() * (V3{W * cos(la), 0, -W * sin(la)} * dt); }
		const double na = K("acc.noise") * dt, ng = K("gyr.noise") * dt;
		dv = dv + V3{gs() * na, gs() * na, gs() * na}; dm = dm + V3{gs() * ng, gs() * ng, gs() * ng};
		if (on("vib")) { const double sg = ((t / (int64_t)K("imu.dt")) & 1) ? 1 : -1; dv = dv + V3{K("vib"), K("vib"), K("vib")} * (sg * dt); }
		imuSample m{}; m.time_us = t; m.delta_ang_dt = m.delta_vel_dt = (float)dt;
		m.delta_ang = Vector3f((float)dm.x, (float)dm.y, (float)dm.z); m.delta_vel = Vector3f((float)dv.x, (float)dv.y, (float)dv.z);
		const int clip = (int)K("clip"); for (int i = 0; i < 3; i++) { m.delta_vel_clipping[i] = clip >> i & 1; }
		e->setIMUData(m);
		if (iu) { acc_dv = acc_da = V3(); acc_dt = 0; acc_clip = nraw = 0; }
		iu = ds.update(m); if (iu) { ds.getDownSampledImuAndTriggerReset(); }
		acc_dv = acc_dv + dm3(m.delta_vel); acc_da = acc_da + dm3(m.delta_ang); acc_dt += dt; acc_clip |= clip; nraw++;
		if (on("flags")) {
			e->set_in_air_status(on("air")); e->set_is_fixed_wing(on("fw")); e->set_fuse_beta_flag(on("beta"));
		}
		last_da = dm; last_dv = dv;
	}
	V3 last_da, last_dv;
	template <class V> static V3 dm3(const V &v) { return {v(0), v(1), v(2)}; }
	static int64_t deg7(double d) { return (int64_t)std::llround(d * 1e7); }
	bool gps_seen{false}; int32_t gps_lat{0}, gps_lon{0};
	// metres north and east of the first position (degrees) on the sphere: azimuth and central angle from the haversines
	static void local(double la0, double lo0, double la1, double lo1, double &n, double &e)
	{
		const double R = M_PI / 180, a0 = la0 * R, a1 = la1 * R, d = (lo1 - lo0) * R, h1 = sin((a1 - a0) / 2), h2 = sin(d / 2);
		const double c = 2 * asin(std::min(1.0, std::sqrt(h1 * h1 + cos(a0) * cos(a1) * h2 * h2))), az = atan2(sin(d) * cos(a1), cos(a0) * sin(a1) - sin(a0) * cos(a1) * cos(d));
		n = 6371000.0 * c * cos(az); e = 6371000.0 * c * sin(az);
	}
	void sensors()
	{
		auto due = [&](const char *n) {
			const std::string nn(n); const bool d = t >= next[nn];
			if (d) { while (next[nn] <= t) { next[nn] += std::max<int64_t>(1000, (int64_t)(K((nn + ".int").c_str()) * (1 + K((nn + ".jit").c_str()) * (u() - 0.5)))); } }
			return d && on((nn + ".on").c_str());
		};
		const parameters &P = *e->getParamHandle();
		const double nz = K("noise");
		if (due("mag")) {
			const Truth &h = at(t - (int64_t)(P.mag_delay_ms * 1000) - 5000);
			const double dec = on("mag.dec") ? K("mag.dec") : get_mag_declination_radians(K("lat"), K("lon")), inc = get_mag_inclination_radians(K("lat"), K("lon")), f = get_mag_strength_gauss(K("lat"), K("lon")) * K("mag.scale");
			V3 me{f * cos(inc) * cos(dec), f * cos(inc) * sin(dec), f * sin(inc)};
			me = me + V3{K("mag.dn"), K("mag.de"), K("mag.dd")};
			V3 b = h.R().T() * me + V3{K("mag.bx"), K("mag.by"), K("mag.bz")} + V3{gs(), gs(), gs()} * (0.005 * nz);
			magSample x; x.time_us = t; x.mag = Vector3f((float)b.x, (float)b.y, (float)b.z); if (!on("mag.mute")) { e->setMagData(x); } dl("mag", t, "," + std::to_string(llround(x.mag.norm() * 1e4)) + "," + std::to_string(llround(get_mag_strength_gauss(K("lat"), K("lon")) * 1e4)));
		}
		if (due("baro")) {
			const Truth &h = at(t - (int64_t)(P.baro_delay_ms * 1000) - 5000);
			baroSample x; x.time_us = t; x.hgt = (float)(K("baro.alt") - h.p.z + K("baro.off") + gs() * 0.1 * nz); if (!on("baro.mute")) { e->setBaroData(x); } dl("baro", t);
		}
		if (due("gps")) {
			const Truth &h = at(t - (int64_t)(P.gps_delay_ms * 1000) - 5000);
			gps_message x{}; x.time_usec = t;
			const double pn = h.p.x + K("gps.dn") + gs() * 0.2 * nz + K("gps.rn") * (t - t0) * 1e-6, pe = h.p.y + K("gps.de") + gs() * 0.2 * nz, pd = h.p.z + K("gps.dd") + gs() * 0.3 * nz + K("gps.rd") * (t - t0) * 1e-6;
			const double RE = 6371000.0, la = K("lat") * M_PI / 180, lo = K("lon") * M_PI / 180, c = sqrt(pn * pn + pe * pe) / RE;
			double lat = la, lon = lo;
			if (c > 1e-12) { lat = asin(cos(c) * sin(la) + pn / RE * sin(c) / c * cos(la)); lon = lo + atan2(pe / RE * sin(c) / c, cos(la) * cos(c) - pn / RE * sin(c) / c * sin(la)); }
			x.lat = (int32_t)deg7(lat * 180 / M_PI); x.lon = (int32_t)deg7(lon * 180 / M_PI); x.alt = (int32_t)std::llround((K("alt") - pd) * 1000);
			x.yaw = on("gps.yaw") ? (float)atan2(sin(h.y + K("gps.yoff") + K("gps.dyaw")), cos(h.y + K("gps.yoff") + K("gps.dyaw"))) : NAN; x.yaw_offset = on("gps.yofn") ? NAN : (float)K("gps.yoff");
			x.fix_type = (uint8_t)K("gps.fix"); x.eph = (float)K("gps.eph"); x.epv = (float)K("gps.epv"); x.sacc = (float)K("gps.sacc");
			x.vel_ned = Vector3f((float)(h.v.x + K("gps.dvn") + gs() * 0.1 * nz), (float)(h.v.y + K("gps.dve") + gs() * 0.1 * nz), (float)(h.v.z + K("gps.dvd") + gs() * 0.1 * nz));
			x.vel_m_s = (float)std::hypot(h.v.x, h.v.y); x.vel_ned_valid = on("gps.velvalid"); x.nsats = (uint8_t)K("gps.nsats"); x.pdop = (float)K("gps.pdop");
			const matrix::Vector<float, 24> sp0 = e->getStateAtFusionHorizonAsVector(); const double svd = sp0(6); // vertical velocity the message is compared with
			if (!on("gps.mute")) { e->setGpsData(x); }
			double mn = 0, me2 = 0; if (gps_seen) { local(gps_lat * 1e-7, gps_lon * 1e-7, x.lat * 1e-7, x.lon * 1e-7, mn, me2); } // movement since the last message with a 3D fix
			if (x.fix_type > 2) { gps_seen = true; gps_lat = x.lat; gps_lon = x.lon; }
			uint16_t gc = 0; e->get_gps_check_status(&gc);
			uint64_t ot; double ola, olo; float oal; const bool ov = e->getEkfGlobalOrigin(ot, ola, olo, oal);
			char b[1200]; double px = 0, py = 0;
			if (ov) { local(ola, olo, x.lat * 1e-7, x.lon * 1e-7, px, py); }
			if (has("gpsmsg")) {
				float dm[3]; bool bl; const bool du = e->get_gps_drift_metrics(dm, &bl);
				snprintf(b, sizeof b, ",%d,%s,%d,{\"fix\":%d,\"ns\":%d,\"pdop\":%lld,\"eph\":%lld,\"epv\":%lld,\"sacc\":%lld,\"lat\":%lld,\"lon\":%lld,\"alt\":%d,\"vn\":%lld,\"ve\":%lld,\"vd\":%lld,\"vv\":%s,\"yf\":%s,\"chk\":%d,\"px\":%lld,\"py\":%lld,\"du\":%s,\"bl\":%s,\"m0\":%lld,\"m1\":%lld,\"m2\":%lld,\"spd\":%lld,\"pn\":%lld,\"pe\":%lld,\"pd\":%lld,\"ti\":%lld,\"air\":%s,\"rest\":%s,\"dn\":%lld,\"de\":%lld,\"sv\":%lld,\"sp\":[%lld,%lld,%lld],\"ov\":%s,\"ola\":%lld,\"olo\":%lld,\"oal\":%lld,\"dy\":%lld,\"yo\":%lld}", x.fix_type, std::isfinite(x.yaw) ? "true" : "false", gc, x.fix_type, x.nsats, Rec::fx(x.pdop, 1e3), Rec::fx(x.eph, 1e3), Rec::fx(x.epv, 1e3), Rec::fx(x.sacc, 1e3), (long long)x.lat, (long long)x.lon, x.alt,
					 Rec::fx(x.vel_ned(0), 1e3), Rec::fx(x.vel_ned(1), 1e3), Rec::fx(x.vel_ned(2), 1e3), x.vel_ned_valid ? "true" : "false", std::isfinite(x.yaw) ? "true" : "false", gc, Rec::fx(px, 1e3), Rec::fx(py, 1e3), du ? "true" : "false", bl ? "true" : "false", Rec::fx(dm[0], 1e4), Rec::fx(dm[1], 1e4), Rec::fx(dm[2], 1e4), Rec::fx(std::hypot(x.vel_ned(0), x.vel_ned(1)), 1e3), Rec::fx(pn, 1e3), Rec::fx(pe, 1e3), Rec::fx(pd, 1e3),
					 (long long)(s.t - t0), e->control_status_flags().in_air ? "true" : "false", e->control_status_flags().vehicle_at_rest ? "true" : "false", Rec::fx(mn, 1e4), Rec::fx(me2, 1e4), Rec::fx(svd, 1e4), Rec::fx(sp0(7), 1e3), Rec::fx(sp0(8), 1e3), Rec::fx(sp0(9), 1e3), ov ? "true" : "false", Rec::fx(ola - K("lat"), 1e8), Rec::fx(olo - K("lon"), 1e8), Rec::fx(oal, 1e3), Rec::fx(std::remainder(K("gps.yoff") + K("gps.dyaw"), 2 * M_PI), 1e4), Rec::fx(K("gps.yoff"), 1e4));
			} else { snprintf(b, sizeof b, ",%d,%s,%d", x.fix_type, std::isfinite(x.yaw) ? "true" : "false", gc); }
			dl("gps", t, b);
		}
		if (due("rng")) {
			const Truth &h = at(t - (int64_t)(P.range_delay_ms * 1000) - 5000);
			const double ct = cos(h.r) * cos(h.pi);
			double d = (K("terrain") - h.p.z) / std::max(ct, 0.05) + K("rng.off") + gs() * 0.02 * nz;
			d = std::max(d, K("rng.floor")); if (on("rng.stuck")) { d = rng_hold; } rng_hold = d;
			rangeSample x; x.time_us = t; x.rng = (float)d; x.quality = (int8_t)K("rng.q"); if (!on("rng.mute")) { e->setRangeData(x); }
			char b[64]; snprintf(b, sizeof b, ",%lld,%d", Rec::fx(d, 1e3), (int)x.quality); dl("rng", t, b);
		}
		if (due("flow")) {
			const Truth &h = at(t - (int64_t)(P.flow_delay_ms * 1000) - 5000);
			const double ct = cos(h.r) * cos(h.pi), d = std::max(0.1, (K("terrain") - h.p.z) / std::max(ct, 0.05)), dt = imu_acc_dt * (on("flow.dts") ? K("flow.dts") : 1);
			const V3 vb = h.R().T() * h.v;
			flowSample x{}; x.time_us = t; x.dt = (float)dt; x.quality = (uint8_t)K("flow.q"); const V3 fg = flow_da * -1.0;
			x.gyro_xyz = on("flow.gyro") ? Vector3f((float)fg.x, (float)fg.y, (float)fg.z) : Vector3f(NAN, NAN, NAN);
			x.flow_xy_rad = Vector2f((float)((vb.y / d * K("flow.scale") + K("flow.off") + gs() * 0.02 * nz) * dt + fg.x), (float)((-vb.x / d * K("flow.scale") + gs() * 0.02 * nz) * dt + fg.y));
			flow_da = V3(); imu_acc_dt = 0;
			if (!on("flow.mute")) { e->setOpticalFlowData(x); }
			char b[128]; snprintf(b, sizeof b, ",%d,%lld,%lld,%lld", (int)x.quality, Rec::fx(x.dt, 1e6), Rec::fx(x.flow_xy_rad.norm() / x.dt, 1e3), Rec::fx(std::fabs(K("flow.off")) + std::fabs(K("flow.scale") - 1), 1e3)); dl("flow", t, b);
		}
		if (due("ev")) {
			const Truth &h = at(t - (int64_t)(P.ev_delay_ms * 1000) - 5000);
			extVisionSample x; x.time_us = t; const double ya = K("ev.yaw"); const M3 Q = rpy(0, 0, ya); // ev frame = local frame rotated by -ya
			const V3 p = Q * h.p + V3{K("ev.dn"), K("ev.de"), K("ev.dd")}; V3 v = Q * h.v + V3{K("ev.dvn"), K("ev.dve"), K("ev.dvd")};
			x.pos = Vector3f((float)(p.x + gs() * 0.02 * nz), (float)(p.y + gs() * 0.02 * nz), (float)(p.z + gs() * 0.02 * nz));
			if (on("ev.body")) { v = h.R().T() * (h.v + V3{K("ev.dvn"), K("ev.dve"), K("ev.dvd")}); x.vel_frame = velocity_frame_t::BODY_FRAME_FRD; } else { x.vel_frame = velocity_frame_t::LOCAL_FRAME_FRD; }
			x.vel = Vector3f((float)v.x, (float)v.y, (float)v.z);
			x.quat = Quatf(Eulerf((float)h.r, (float)h.pi, (float)(h.y + ya + K("ev.dyaw"))));
			x.posVar = Vector3f((float)K("ev.var"), (float)K("ev.var"), (float)K("ev.var")); x.velCov = matrix::eye<float, 3>() * (float)K("ev.vvar"); x.angVar = (float)K("ev.avar");
			if (on("ev.nan")) { x.pos(0) = NAN; x.vel(0) = NAN; }
			if (!on("ev.mute")) { e->setExtVisionData(x); } dl("ev", t);
		}
		if (due("tas")) {
			const Truth &h = at(t - (int64_t)(P.airspeed_delay_ms * 1000) - 5000);
			airspeedSample x; x.time_us = t; x.true_airspeed = (float)(nrm(h.v - V3{K("wn"), K("we"), 0}) * K("tas.scale") + K("tas.off") + gs() * 0.2 * nz); x.eas2tas = 1; if (!on("tas.mute")) { e->setAirspeedData(x); }
			char b[32]; snprintf(b, sizeof b, ",%lld", Rec::fx(x.true_airspeed, 1e3)); dl("tas", t, b);
		}
		if (due("aux")) {
			const Truth &h = at(t - (int64_t)(P.auxvel_delay_ms * 1000) - 5000);
			auxVelSample x; x.time_us = t; x.vel = Vector3f((float)(h.v.x + K("aux.dvn")), (float)(h.v.y + K("aux.dve")), 0); x.velVar = Vector3f((float)K("aux.var"), (float)K("aux.var"), (float)K("aux.var")); if (!on("aux.mute")) { e->setAuxVelData(x); } dl("aux", t);
		}
	}
	static std::string jarr(const std::vector<double> &v, double sc) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { s += (i ? "," : "") + std::to_string(Rec::fx(v[i], sc)); } return s + "]"; }
	template <class V> static std::string vec(const V &v, int n, double sc) { std::string s = "["; for (int i = 0; i < n; i++) { s += (i ? "," : "") + std::to_string(Rec::fx(v(i), sc)); } return s + "]"; }
	struct Names { std::string s{"["}; bool f{true}; void operator()(bool b, const char *n) { if (b) { s += f ? "\"" : ",\""; s += n; s += '"'; f = false; } } std::string done() { return s + "]"; } };
	std::string csn()
	{
		const auto &f = e->control_status_flags(); Names n;
#define X(a) n(f.a, #a)
		X(tilt_align); X(yaw_align); X(gps); X(opt_flow); X(mag_hdg); X(mag_3D); X(mag_dec); X(in_air); X(wind); X(baro_hgt); X(rng_hgt); X(gps_hgt); X(ev_pos); X(ev_yaw); X(ev_hgt); X(fuse_beta); X(mag_field_disturbed);
		X(fixed_wing); X(mag_fault); X(fuse_aspd); X(gnd_effect); X(rng_stuck); X(gps_yaw); X(mag_aligned_in_flight); X(ev_vel); X(synthetic_mag_z); X(vehicle_at_rest);
		return n.done();
	}
	std::string fsn()
	{
		const auto &f = e->fault_status_flags(); Names n;
		X(bad_mag_x); X(bad_mag_y); X(bad_mag_z); X(bad_hdg); X(bad_mag_decl); X(bad_airspeed); X(bad_sideslip); X(bad_optflow_X); X(bad_optflow_Y); X(bad_vel_N); X(bad_vel_E); X(bad_vel_D); X(bad_pos_N); X(bad_pos_E); X(bad_pos_D); X(bad_acc_bias); X(bad_acc_vertical); X(bad_acc_clipping);
		return n.done();
	}
	std::string nfn()
	{
		const auto &f = e->innov_check_fail_status_flags(); Names n;
		X(reject_hor_vel); X(reject_ver_vel); X(reject_hor_pos); X(reject_ver_pos); X(reject_mag_x); X(reject_mag_y); X(reject_mag_z); X(reject_yaw); X(reject_airspeed); X(reject_sideslip); X(reject_hagl); X(reject_optflow_X); X(reject_optflow_Y);
		return n.done();
	}
	std::string wen()
	{
		const auto &f = e->warning_event_flags(); Names n;
		X(gps_quality_poor); X(gps_fusion_timout); X(gps_data_stopped); X(gps_data_stopped_using_alternate); X(height_sensor_timeout); X(stopping_navigation); X(invalid_accel_bias_cov_reset); X(bad_yaw_using_gps_course); X(stopping_mag_use); X(vision_data_stopped); X(emergency_yaw_reset_mag_stopped);
		return n.done();
	}
	std::string ien()
	{
		const auto &f = e->information_event_flags(); Names n;
		X(gps_checks_passed); X(reset_vel_to_gps); X(reset_vel_to_flow); X(reset_vel_to_vision); X(reset_vel_to_zero); X(reset_pos_to_last_known); X(reset_pos_to_gps); X(reset_pos_to_vision); X(starting_gps_fusion); X(starting_vision_pos_fusion); X(starting_vision_vel_fusion); X(starting_vision_yaw_fusion); X(yaw_aligned_to_imu_gps);
		return n.done();
	}
#undef X
	void fields(Rec &r);
	void fieldsPre(Rec &r);
	bool step(int64_t end, FILE *f);
	void run(int64_t us, FILE *f);
	void call(const char *n, double a, double b, double c);
	std::vector<double> last_state; // for change detection
	long nupd{0};
	V3 dqo, dqp; // rotation of the attitude output in this step, and of the output against the one predicted before the step
	static V3 rotbetween(const Quatf &a, const Quatf &b)
	{
		double w = 0, v[3]; const double A[4] = {a(0), -a(1), -a(2), -a(3)}, B[4] = {b(0), b(1), b(2), b(3)};
		w = A[0] * B[0] - A[1] * B[1] - A[2] * B[2] - A[3] * B[3];
		v[0] = A[0] * B[1] + A[1] * B[0] + A[2] * B[3] - A[3] * B[2]; v[1] = A[0] * B[2] - A[1] * B[3] + A[2] * B[0] + A[3] * B[1]; v[2] = A[0] * B[3] + A[1] * B[2] - A[2] * B[1] + A[3] * B[0];
		const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); const double k = n > 1e-12 ? 2 * std::atan2(n, std::fabs(w)) / n * (w < 0 ? -1 : 1) : 2;
		return V3{v[0] * k, v[1] * k, v[2] * k};
	}
};
#include "ekf_fields.h"

void Sim::call(const char *n, double a, double b, double c)
{
	bool ret = true;
	char x[300] = "";
	if (!strcmp(n, "origin")) { ret = e->setEkfGlobalOrigin(a, b, (float)c); }
	else if (!strcmp(n, "resetImuBias")) { e->resetImuBias(); }
	else if (!strcmp(n, "resetGyroBias")) { e->resetGyroBias(); }
	else if (!strcmp(n, "resetAccelBias")) { e->resetAccelBias(); }
	else if (!strcmp(n, "resetMagBias")) { e->resetMagBias(); }
	else if (!strcmp(n, "gndeffect")) { e->set_gnd_effect_flag(a != 0); }
	else if (!strcmp(n, "gpshealth")) { e->set_min_required_gps_health_time((uint32_t)a); }
	else if (!strcmp(n, "rnglim")) { e->set_rangefinder_limits((float)a, (float)b); }
	else if (!strcmp(n, "flowlim")) { e->set_optical_flow_limits((float)a, (float)b, (float)c); }
	else if (!strcmp(n, "init")) { ret = e->init(t); }
	else if (!strcmp(n, "airdensity")) { e->set_air_density((float)a); }
	else { fprintf(stderr, "unknown call %s\n", n); exit(3); }
	if (!calls.empty()) { calls += ','; }
	const bool org = !strcmp(n, "origin"); snprintf(x, sizeof x, "[\"%s\",%lld,%lld,%lld,%s]", n, org ? Rec::fx(a - K("lat"), 1e8) : Rec::fx(a, !strcmp(n, "gpshealth") ? 1 : 1e6), org ? Rec::fx(b - K("lon"), 1e8) : Rec::fx(b, 1e6), Rec::fx(c, 1e3), ret ? "true" : "false");
	calls += x;
	if (has("callrec")) { Rec r("call"); r.str("n", n).b("ret", ret).raw("a", std::string(x)); r.i("t", t - t0); fields(r); r.out(REC); calls.clear(); }
}

// one IMU sample (false when the end of the run is reached)
bool Sim::step(int64_t end, FILE *f)
{
	if (t >= end) { return false; }
	t = std::min(next_imu, end);
	if (t < next_imu) { return false; }
	next_imu = t + std::max<int64_t>(500, (int64_t)(K("imu.dt") * (1 + K("imu.jit") * (u() - 0.5))));
	if (on("imu.on")) { imu(); }
	sensors();
	if (!on("imu.on") || !on("upd")) { return true; }
	const Quatf qbefore = e->getQuaternion(), qpred = has("obs") ? e->calculate_quaternion() : qbefore;
	const bool up = e->update(), quiet = !on("rec");
	if (has("obs")) { dqo = rotbetween(qbefore, e->getQuaternion()); dqp = rotbetween(qpred, e->getQuaternion()); }
	if (!up && iu && has("pre") && !quiet) { // a completed filter period in which the filter did not run
		Rec r("p"); r.i("t", t - t0).i("td", (long long)((int64_t)e->get_imu_sample_delayed().time_us - t0)).raw("d", "[" + deliv + "]"); fieldsPre(r); if (has("baro")) { const baroSample &b = e->get_baro_sample_delayed(); r.f("bh", b.hgt, 1e3); } r.out(f); deliv.clear(); calls.clear();
	}
	if (up || has("every")) {
		nupd++;
		if (up && (nupd % (long)K("decim")) != 0 && !has("every")) { return true; }
		if (!quiet) {
			Rec r("u"); r.i("t", t - t0);
			if (has("every")) { r.b("up", up); }
			if (has("pre")) { r.b("iu", iu); }
			fields(r);
			r.out(f);
		}
		deliv.clear(); calls.clear(); e->clear_warning_events(); e->clear_information_events();
	}
	return true;
}
void Sim::run(int64_t us, FILE *f)
{
	if (!started) { start(); }
	const int64_t end = t + us;
	while (step(end, f)) {}
	t = end;
}
// two simulators in lock step (and a third one in between, whose records are dropped); their records are merged pairwise
static void runTwins(Sim &a, Sim &b, Sim *n, int64_t us, FILE *f)
{
	char *pa, *pb; size_t na, nb; FILE *fa = open_memstream(&pa, &na), *fb = open_memstream(&pb, &nb), *fn = fopen("/dev/null", "w");
	for (Sim *x : {&a, &b, n}) { if (x && !x->started) { x->start(); } }
	const int64_t ea = a.t + us, eb = b.t + us; bool ga = true, gb = true;
	while (ga || gb) { ga = ga && a.step(ea, fa); if (n) { n->step(n->t + 1000000, fn); } gb = gb && b.step(eb, fb); if (n && (b.t & 4096)) { n->step(n->t + 1000000, fn); } }
	a.t = ea; b.t = eb; fclose(fa); fclose(fb); fclose(fn);
	char *x = pa, *y = pb;
	while (*x || *y) {
		char *ex = strchr(x, '\n'), *ey = strchr(y, '\n');
		std::string lx(x, ex ? (size_t)(ex - x) : 0), ly(y, ey ? (size_t)(ey - y) : 0);
		if (lx.empty()) { lx = "{\"e\":\"missing\"}"; } if (ly.empty()) { ly = "{\"e\":\"missing\"}"; }
		lx.pop_back(); fprintf(f, "%s,\"b\":%s}\n", lx.c_str(), ly.c_str());
		x = ex ? ex + 1 : x + strlen(x); y = ey ? ey + 1 : y + strlen(y);
	}
	free(pa); free(pb);
}

static bool setpar(parameters &p, const char *n, double v)
{
#define P(a) if (!strcmp(n, #a)) { p.a = (decltype(p.a))v; return true; }
	P(fusion_mode) P(vdist_sensor_type) P(terrain_fusion_mode) P(sensor_interval_min_ms) P(mag_delay_ms) P(baro_delay_ms) P(gps_delay_ms) P(airspeed_delay_ms) P(flow_delay_ms) P(range_delay_ms) P(ev_delay_ms) P(auxvel_delay_ms)
	P(gyro_noise) P(accel_noise) P(initial_wind_uncertainty) P(initial_tilt_err) P(baro_innov_gate) P(gps_pos_innov_gate) P(gps_vel_innov_gate) P(gnd_effect_deadzone) P(gnd_effect_max_hgt) P(mag_heading_noise) P(mag_noise) P(mag_declination_deg) P(heading_innov_gate) P(mag_innov_gate)
	P(mag_declination_source) P(mag_fusion_type) P(mag_acc_gate) P(mag_yaw_rate_gate) P(tas_innov_gate) P(eas_noise) P(beta_innov_gate) P(beta_noise) P(beta_avg_ft_us) P(range_noise) P(range_innov_gate) P(rng_gnd_clearance) P(rng_sens_pitch) P(max_hagl_for_range_aid) P(max_vel_for_range_aid) P(range_aid)
	P(range_aid_innov_gate) P(range_valid_quality_s) P(range_cos_max_tilt) P(ev_vel_innov_gate) P(ev_pos_innov_gate) P(flow_noise) P(flow_qual_min) P(flow_innov_gate) P(gps_check_mask) P(req_hacc) P(req_vacc) P(req_sacc) P(req_nsats) P(req_pdop) P(req_hdrift) P(req_vdrift)
	P(vel_Tau) P(pos_Tau) P(acc_bias_lim) P(acc_bias_learn_acc_lim) P(acc_bias_learn_gyr_lim) P(acc_bias_learn_tc) P(reset_timeout_max) P(no_aid_timeout_max) P(valid_timeout_max) P(drag_noise) P(bcoef_x) P(bcoef_y) P(vert_innov_test_lim) P(bad_acc_reset_delay_us) P(auxvel_noise) P(auxvel_gate) P(is_moving_scaler) P(synthesize_mag_z) P(check_mag_strength) P(EKFGSF_tas_default) P(EKFGSF_reset_delay) P(EKFGSF_yaw_err_max) P(EKFGSF_reset_count_limit)
	P(baro_noise) P(gps_pos_noise) P(gps_vel_noise) P(pos_noaid_noise) P(switch_on_gyro_bias) P(switch_on_accel_bias) P(gyro_bias_p_noise) P(accel_bias_p_noise) P(range_noise_scaler) P(vehicle_variance_scaler) P(terrain_p_noise) P(terrain_gradient) P(wind_vel_p_noise) P(mage_p_noise) P(magb_p_noise) P(wind_vel_p_noise_scaler) P(quat_max_variance)
#undef P
	if (!strncmp(n, "imu_pos_", 8)) { p.imu_pos_body(n[8] - 'x') = (float)v; return true; }
	if (!strncmp(n, "gps_pos_", 8)) { p.gps_pos_body(n[8] - 'x') = (float)v; return true; }
	return false;
}

int main(int argc, char **argv)
{
	REC = fdopen(dup(1), "w"); DEVNULL = fopen("/dev/null", "w"); if (!freopen("/dev/null", "w", stdout)) { return 3; } // the filter logs to stdout
	std::vector<std::string> g(argv + 1, argv + argc);
	std::unique_ptr<Sim> s, s2, s3; char line[512], n[64]; double a, b, c; std::map<std::string, double> pars; bool announced = false;
	while (fgets(line, sizeof line, stdin)) {
		if (line[0] == '\n' || line[0] == '#') { continue; }
		a = b = c = 0;
		if (sscanf(line, "new %lf", &a) == 1) { s.reset(new Sim); s->init((uint64_t)a, g); s2.reset(); s3.reset(); announced = false; pars.clear(); continue; }
		if (!s) { return 3; }
		if (sscanf(line, "twin %lf", &a) == 1) { s2.reset(new Sim); s2->init((uint64_t)a, g, 0x55); continue; }          // directly after new, with its seed
		if (sscanf(line, "bystander %lf", &a) == 1) { s3.reset(new Sim); s3->init((uint64_t)a, g, 0xaa); s3->k["air"] = 1; s3->k["vn"] = 3; s3->k["velmode"] = 1; continue; }
		if (sscanf(line, "par2 %63s %lf", n, &a) == 2) { if (!s2 || !setpar(*s2->e->getParamHandle(), n, a)) { return 3; } continue; }
		if (sscanf(line, "k2 %63s %lf", n, &a) == 2) { if (!s2) { return 3; } s2->k[n] = a; continue; }
		if (sscanf(line, "call2 %63s %lf %lf %lf", n, &a, &b, &c) >= 1) { if (!s2) { return 3; } s2->call(n, a, b, c); continue; }
		if (sscanf(line, "call1 %63s %lf %lf %lf", n, &a, &b, &c) >= 1) { s->call(n, a, b, c); continue; }
		if (sscanf(line, "run2 %lf", &a) == 1) { if (!s2) { return 3; } s2->run((int64_t)(a * 1000), DEVNULL); continue; } // the twin alone
		if (sscanf(line, "par %63s %lf", n, &a) == 2) {
			if (!setpar(*s->e->getParamHandle(), n, a)) { fprintf(stderr, "par %s\n", n); return 3; }
			if (s2) { setpar(*s2->e->getParamHandle(), n, a); }
			if (announced) { Rec r("par"); r.str("n", n).f("v", a, 1e3); r.out(REC); } 
			continue;
		}
		if (sscanf(line, "k %63s %lf", n, &a) == 2) { s->k[n] = a; if (s2) { s2->k[n] = a; } continue; }
		if (sscanf(line, "call %63s %lf %lf %lf", n, &a, &b, &c) >= 1) { s->call(n, a, b, c); if (s2) { s2->call(n, a, b, c); } continue; }
		if (sscanf(line, "run %lf", &a) == 1) {
			if (!announced) {
				announced = true; const parameters &p = *s->e->getParamHandle();
				Rec r("new"); r.i("seed", 0);
#define Q(x) r.i(#x, (long long)p.x)
#define F(x, sc) r.f(#x, p.x, sc)
				Q(fusion_mode); Q(vdist_sensor_type); Q(terrain_fusion_mode); Q(sensor_interval_min_ms); Q(mag_fusion_type); Q(range_aid); Q(check_mag_strength); Q(reset_timeout_max); Q(no_aid_timeout_max); Q(valid_timeout_max); Q(flow_qual_min); Q(gps_check_mask); Q(req_nsats); Q(bad_acc_reset_delay_us); Q(EKFGSF_reset_count_limit); Q(EKFGSF_reset_delay); Q(mag_declination_source); Q(synthesize_mag_z);
				F(mag_delay_ms, 1e3); F(baro_delay_ms, 1e3); F(gps_delay_ms, 1e3); F(airspeed_delay_ms, 1e3); F(flow_delay_ms, 1e3); F(range_delay_ms, 1e3); F(ev_delay_ms, 1e3); F(auxvel_delay_ms, 1e3);
				F(req_hacc, 1e3); F(req_vacc, 1e3); F(req_sacc, 1e3); F(req_pdop, 1e3); F(req_hdrift, 1e3); F(req_vdrift, 1e3); F(acc_bias_lim, 1e6); F(vert_innov_test_lim, 1e3); F(EKFGSF_yaw_err_max, 1e4); F(beta_avg_ft_us, 1); F(initial_wind_uncertainty, 1e3); F(rng_gnd_clearance, 1e3); F(terrain_p_noise, 1e3); F(terrain_gradient, 1e3); F(rng_sens_pitch, 1e4); F(max_hagl_for_range_aid, 1e3); F(max_vel_for_range_aid, 1e3); F(range_aid_innov_gate, 1e3); F(vel_Tau, 1e3); F(pos_Tau, 1e3); r.raw("ipb", Sim::vec(p.imu_pos_body, 3, 1e3)); F(acc_bias_learn_tc, 1e3); F(acc_bias_learn_gyr_lim, 1e3); F(acc_bias_learn_acc_lim, 1e3); F(mag_acc_gate, 1e3); F(mag_yaw_rate_gate, 1e3);
				F(gps_vel_innov_gate, 1e2); F(gps_pos_innov_gate, 1e2); F(baro_innov_gate, 1e2); F(ev_vel_innov_gate, 1e2); F(ev_pos_innov_gate, 1e2); F(range_innov_gate, 1e2); F(flow_innov_gate, 1e2); F(tas_innov_gate, 1e2); F(beta_innov_gate, 1e2); F(heading_innov_gate, 1e2); F(mag_innov_gate, 1e2); F(auxvel_gate, 1e2);
#undef Q
#undef F
				r.out(REC);
			}
			if (s2) { runTwins(*s, *s2, s3.get(), (int64_t)(a * 1000), REC); } else { s->run((int64_t)(a * 1000), REC); }
			continue;
		}
		fprintf(stderr, "bad line %s", line); return 3;
	}
	fclose(REC);
}
