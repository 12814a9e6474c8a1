// Record groups of the scenario simulator (included by ekf.cpp).

// what an earlier call may have left on the stack
__attribute__((noinline)) inline void dirty_stack() { volatile unsigned char b[4096]; for (unsigned i = 0; i < sizeof b; i++) { b[i] = 0xa5 ^ (i & 0xff); } }

inline void Sim::fieldsPre(Rec &r)
{
	if (has("hz")) { r.raw("rdv", jarr({acc_dv.x, acc_dv.y, acc_dv.z}, 1e5)).raw("rda", jarr({acc_da.x, acc_da.y, acc_da.z}, 1e5)).i("rcl", acc_clip).i("nraw", nraw).f("rdt", acc_dt, 1e6); const imuSample &m = e->get_imu_sample_delayed(); r.raw("hdv", vec(m.delta_vel, 3, 1e5)).raw("hda", vec(m.delta_ang, 3, 1e5)).f("hdt", m.delta_vel_dt, 1e6).i("hcl", m.delta_vel_clipping[0] + 2 * m.delta_vel_clipping[1] + 4 * m.delta_vel_clipping[2]); }
}
inline void Sim::fields(Rec &r)
{
	fieldsPre(r);
	const Ekf &f = *e;
	auto tr = [](uint64_t tt, int64_t t0) { return (long long)((int64_t)tt - t0); };
	if (has("td")) { r.i("td", tr(f.get_imu_sample_delayed().time_us, t0)); }
	if (has("idt")) { const imuSample &m = f.get_imu_sample_delayed(); r.f("dadt", m.delta_ang_dt, 1e6).f("dvdt", m.delta_vel_dt, 1e6); }
	if (has("d")) { r.raw("d", "[" + deliv + "]"); }
	if (has("calls")) { r.raw("c", "[" + calls + "]"); }
	if (has("cs")) { r.raw("cs", csn()); }
	if (has("fs")) { r.raw("fs", fsn()); }
	if (has("nf")) { r.raw("nf", nfn()); }
	if (has("we")) { r.raw("we", wen()); }
	if (has("ie")) { r.raw("ie", ien()); }
	if (has("vals")) { r.i("csv", f.control_status().value).i("fsv", f.fault_status().value).i("nfv", f.innov_check_fail_status().value); }
	const matrix::Vector<float, 24> x = f.getStateAtFusionHorizonAsVector();
	if (has("st")) {
		r.raw("q", vec(x, 4, 1e5));
		std::string s = "["; for (int i = 4; i < 10; i++) { s += (i > 4 ? "," : "") + std::to_string(Rec::fx(x(i), 1e3)); } r.raw("vp", s + "]");
	}
	if (has("stb")) { std::string s = "["; for (int i = 10; i < 24; i++) { s += (i > 10 ? "," : "") + std::to_string(Rec::fx(x(i), i < 16 ? 1e7 : 1e4)); } r.raw("bi", s + "]"); }
	if (has("wind")) { r.raw("w", vec(f.getWindVelocity(), 2, 1e3)).raw("wv", vec(f.getWindVelocityVariance(), 2, 1e4)); }
	if (has("yaw")) { r.f("yaw", matrix::Eulerf(matrix::Quatf(x(0), x(1), x(2), x(3))).psi(), 1e4); }
	if (has("rs")) {
		const auto &z = f.state_reset_status();
		float dv[2], dp[2], dq[4], pd, vd; uint8_t cv, cp, cq, cpd, cvd;
		f.get_velNE_reset(dv, &cv); f.get_posNE_reset(dp, &cp); f.get_quat_reset(dq, &cq); f.get_posD_reset(&pd, &cpd); f.get_velD_reset(&vd, &cvd); (void)z;
		r.raw("rc", "[" + std::to_string(cv) + "," + std::to_string(cp) + "," + std::to_string(cvd) + "," + std::to_string(cpd) + "," + std::to_string(cq) + "]");
		r.raw("rd", jarr({dv[0], dv[1], dp[0], dp[1], vd, pd}, 1e3)).raw("rq", jarr({dq[0], dq[1], dq[2], dq[3]}, 1e5));
	}
	if (has("rcq")) { uint8_t cq; float dq[4]; f.get_quat_reset(dq, &cq); r.i("rcq", cq); }
	if (has("innov") || has("ratio")) {
		float h[2], v, p[2], vp, a[2], b[2]; std::string s;
		const bool all = has("innov");
		auto grp = [&](const char *n, std::vector<double> in, std::vector<double> var, std::vector<double> ratio) {
			if (!s.empty()) { s += ','; } s += std::string("\"") + n + "\":"; s += "{";
			if (all) { s += "\"i\":" + jarr(in, 1e4) + ",\"v\":" + jarr(var, 1e6) + ","; } if (has("nis")) { std::vector<double> q; for (size_t i = 0; i < in.size(); i++) { q.push_back(var[i] > 0 ? in[i] * in[i] / var[i] : 0); } s += "\"n\":" + jarr(q, 1e3) + ","; } if (has("hz") || has("nis")) { // digest of the innovations and variances (for gps without the position part, shared with other fusions)
				uint64_t hh = 1469598103934665603ull; size_t cnt = std::string(n) == "gps" ? 3 : in.size();
				for (size_t i = 0; i < cnt; i++) { for (double dd : {in[i], var[i]}) { float ff = (float)dd; unsigned char c[4]; memcpy(c, &ff, 4); for (int b3 = 0; b3 < 4; b3++) { hh = (hh ^ c[b3]) * 1099511628211ull; } } }
				s += "\"x\":" + std::to_string((hh ^ (hh >> 30)) & 0x3fffffff) + ",";
				if (std::string(n) == "gps") { hh = 1469598103934665603ull; for (double dd : {in[3], var[3], in[4], var[4]}) { float ff = (float)dd; unsigned char c[4]; memcpy(c, &ff, 4); for (int b3 = 0; b3 < 4; b3++) { hh = (hh ^ c[b3]) * 1099511628211ull; } } s += "\"xp\":" + std::to_string((hh ^ (hh >> 30)) & 0x3fffffff) + ","; }
				if (in.size() == 6) { hh = 1469598103934665603ull; for (double dd : {in[5], var[5]}) { float ff = (float)dd; unsigned char c[4]; memcpy(c, &ff, 4); for (int b3 = 0; b3 < 4; b3++) { hh = (hh ^ c[b3]) * 1099511628211ull; } } s += "\"xv\":" + std::to_string((hh ^ (hh >> 30)) & 0x3fffffff) + ","; } }
			s += "\"r\":" + jarr(ratio, 1e4) + "}";
		};
		float ratio[4], hv[2], vv, hp[2], vpv;
		f.getGpsVelPosInnov(h, v, p, vp); f.getGpsVelPosInnovVar(hv, vv, hp, vpv); f.getGpsVelPosInnovRatio(ratio[0], ratio[1], ratio[2], ratio[3]);
		grp("gps", {h[0], h[1], v, p[0], p[1], vp}, {hv[0], hv[1], vv, hp[0], hp[1], vpv}, {ratio[0], ratio[1], ratio[2], ratio[3]});
		f.getEvVelPosInnov(h, v, p, vp); f.getEvVelPosInnovVar(hv, vv, hp, vpv); f.getEvVelPosInnovRatio(ratio[0], ratio[1], ratio[2], ratio[3]);
		grp("ev", {h[0], h[1], v, p[0], p[1], vp}, {hv[0], hv[1], vv, hp[0], hp[1], vpv}, {ratio[0], ratio[1], ratio[2], ratio[3]});
		float i1, v1, r1; f.getBaroHgtInnov(i1); f.getBaroHgtInnovVar(v1); f.getBaroHgtInnovRatio(r1); grp("baro", {i1}, {v1}, {r1});
		f.getRngHgtInnov(i1); f.getRngHgtInnovVar(v1); f.getRngHgtInnovRatio(r1); grp("rng", {i1}, {v1}, {r1});
		f.getAuxVelInnov(a); f.getAuxVelInnovVar(b); f.getAuxVelInnovRatio(r1); grp("aux", {a[0], a[1]}, {b[0], b[1]}, {r1});
		f.getFlowInnov(a); f.getFlowInnovVar(b); f.getFlowInnovRatio(r1); grp("flow", {a[0], a[1]}, {b[0], b[1]}, {r1});
		f.getHeadingInnov(i1); f.getHeadingInnovVar(v1); f.getHeadingInnovRatio(r1); grp("hdg", {i1}, {v1}, {r1});
		float m[3], mv[3]; f.getMagInnov(m); f.getMagInnovVar(mv); f.getMagInnovRatio(r1); grp("mag", {m[0], m[1], m[2]}, {mv[0], mv[1], mv[2]}, {r1});
		float d2[2], dv2[2], dr2[2]; f.getDragInnov(d2); f.getDragInnovVar(dv2); f.getDragInnovRatio(dr2); grp("drag", {d2[0], d2[1]}, {dv2[0], dv2[1]}, {dr2[0], dr2[1]});
		f.getAirspeedInnov(i1); f.getAirspeedInnovVar(v1); f.getAirspeedInnovRatio(r1); grp("tas", {i1}, {v1}, {r1});
		f.getBetaInnov(i1); f.getBetaInnovVar(v1); f.getBetaInnovRatio(r1); grp("beta", {i1}, {v1}, {r1});
		f.getHaglInnov(i1); f.getHaglInnovVar(v1); f.getHaglInnovRatio(r1); grp("hagl", {i1}, {v1}, {r1});
		r.raw("in", "{" + s + "}");
	}
	if (has("cov")) {
		const auto &P = f.covariances(); bool fin = true, sym = true, magz = true, windz = true; std::vector<double> d;
		double cap[24]; for (int i = 0; i < 24; i++) { cap[i] = 0; d.push_back(P(i, i)); }
		bool neg = false;
		for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) {
			if (!std::isfinite(P(i, j))) { fin = false; }
			const double sc = std::sqrt(std::fabs((double)P(i, i) * P(j, j))) * 1e-3 + 1e-9;
			if (std::fabs((double)P(i, j) - (double)P(j, i)) > sc) { sym = false; }
			if ((i >= 16 && i < 22) || (j >= 16 && j < 22)) { if (P(i, j) != 0.f) { magz = false; } }
			if (i >= 22 || j >= 22) { if (P(i, j) != 0.f) { windz = false; } }
		} if (P(i, i) < 0) { neg = true; } }
		bool sfin = true; double qn = 0; for (int i = 0; i < 24; i++) { if (!std::isfinite(x(i))) { sfin = false; } if (i < 4) { qn += (double)x(i) * x(i); } }
		r.b("pfin", fin).b("psym", sym).b("pneg", neg).b("magz", magz).b("windz", windz).b("sfin", sfin).f("qn", qn, 1e6);
		double mx[8] = {0}; const int blk[9] = {0, 4, 7, 10, 13, 16, 19, 22, 24}; double ratioab = 0;
		for (int b2 = 0; b2 < 8; b2++) for (int i = blk[b2]; i < blk[b2 + 1]; i++) { mx[b2] = std::max(mx[b2], (double)P(i, i)); }
		double amin = 1e30; for (int i = 13; i < 16; i++) { amin = std::min(amin, (double)P(i, i)); } ratioab = amin > 0 ? mx[4] / amin : 1e9;
		r.f("pq", mx[0], 1e6).f("pv", mx[1], 100).f("pp", mx[2], 100).f("pgb", mx[3], 1e8).f("pab", mx[4], 1e8).f("abr", ratioab, 10).f("pmi", mx[5], 1e6).f("pmb", mx[6], 1e6).f("pw", mx[7], 100);
		double minvp = 1e30; for (int i = 4; i < 10; i++) { minvp = std::min(minvp, (double)P(i, i)); } r.f("vpmin", minvp, 1e9);
		double mxv = 0, mxp = 0; for (int i = 4; i < 7; i++) { mxv = std::max(mxv, std::fabs((double)x(i))); } for (int i = 7; i < 10; i++) { mxp = std::max(mxp, std::fabs((double)x(i))); }
		const float dt = f.get_dt_imu_avg(); (void)dt;
		const Vector3f gb = f.getGyroBias(), ab = f.getAccelBias();
		r.f("xv", mxv, 1e3).f("xp", mxp, 100).f("gb", std::max({std::fabs(gb(0)), std::fabs(gb(1)), std::fabs(gb(2))}), 1e6).f("ab", std::max({std::fabs(ab(0)), std::fabs(ab(1)), std::fabs(ab(2))}), 1e6);
		double mi = 0, mb = 0, wv = 0; for (int i = 16; i < 19; i++) { mi = std::max(mi, std::fabs((double)x(i))); mb = std::max(mb, std::fabs((double)x(i + 3))); } for (int i = 22; i < 24; i++) { wv = std::max(wv, std::fabs((double)x(i))); }
		r.f("mi", mi, 1e7).f("mb", mb, 1e7).f("wnd", wv, 1e5);
	}
	if (has("abvar")) { const auto &P = f.covariances(); r.raw("abv", jarr({P(13, 13), P(14, 14), P(15, 15)}, 1e11)); bool z[3]; for (int i = 0; i < 3; i++) { z[i] = true; for (int j = 0; j < 24; j++) { if (j != 13 + i && (P(13 + i, j) != 0.f)) { z[i] = false; } } }
		std::string s = "["; for (int i = 0; i < 3; i++) { s += (i ? "," : ""); s += z[i] ? "true" : "false"; } r.raw("abz", s + "]").raw("abs", jarr({x(13), x(14), x(15)}, 1e8)); r.raw("abi", jarr({last_dv.x, last_dv.y, last_dv.z}, 1e5)).raw("abw", jarr({last_da.x, last_da.y, last_da.z}, 1e5)); const imuSample &m = f.get_imu_sample_delayed(); r.raw("hdv", vec(m.delta_vel, 3, 1e5)).raw("hda", vec(m.delta_ang, 3, 1e5)); s = "["; for (int i = 0; i < 3; i++) { s += (i ? "," : ""); s += m.delta_vel_clipping[i] ? "true" : "false"; } r.raw("hcl", s + "]"); r.f("wm", 100 * std::sqrt((double)m.delta_ang(0) * m.delta_ang(0) + (double)m.delta_ang(1) * m.delta_ang(1) + (double)m.delta_ang(2) * m.delta_ang(2)), 1e6).f("am", 100 * std::sqrt((double)m.delta_vel(0) * m.delta_vel(0) + (double)m.delta_vel(1) * m.delta_vel(1) + (double)m.delta_vel(2) * m.delta_vel(2)), 1e5); r.raw("vva", jarr({P(4, 4), P(5, 5), P(6, 6)}, 1e6)); }
	if (has("tilt")) { const auto &P = f.covariances(); const double q0 = x(0), q1 = x(1), q2 = x(2), q3 = x(3);
		// rotation vector variances of the attitude uncertainty: J P_q J' with J = 2 * d(rotvec)/dq
		(void)q0; (void)q1; (void)q2; (void)q3; double s = 0; for (int i = 0; i < 4; i++) { s += P(i, i); } r.f("qv", s, 1e7);
		// variance of the first two components of the rotation vector 2 acos(q0) / |qv| * qv
		double a0 = q0, b[3] = {q1, q2, q3}, sg = 1; if (a0 < 0) { sg = -1; a0 = -a0; for (double &z : b) { z = -z; } } (void)sg; const double sn2 = 1 - a0 * a0; double tv = 0;
		for (int i = 0; i < 2; i++) { double df = 0, g = 2; if (sn2 > 1e-9) { const double sn = std::sqrt(sn2), ac = std::acos(a0); g = 2 * ac / sn; df = 2 * (-1 + a0 * ac / sn) / sn2; } const double j = df * b[i]; tv += j * j * P(0, 0) + 2 * j * g * P(0, i + 1) + g * g * P(i + 1, i + 1); }
		r.f("tvr", tv, 1e7); }
	if (has("valid")) { r.b("dr", f.inertial_dead_reckoning()).b("lpv", f.local_position_is_valid()).b("gpv", f.global_position_is_valid()).b("av", f.attitude_valid()).b("ogn", f.global_origin_valid()); }
	if (has("origin")) { uint64_t ot; double la, lo; float al; const bool v = f.getEkfGlobalOrigin(ot, la, lo, al); r.b("ov", v); if (v) { r.i("ot", tr(ot, t0)).f("ola", (la - K("lat")), 1e8).f("olo", (lo - K("lon")), 1e8).f("oal", al, 1e3); const double R = M_PI / 180, RE = 6371000.0, pn = x(7), pe = x(8), c2 = std::hypot(pn, pe) / RE, b = atan2(pe, pn); const double g1 = asin(sin(la * R) * cos(c2) + cos(la * R) * sin(c2) * cos(b)), g2 = lo * R + atan2(sin(b) * sin(c2) * cos(la * R), cos(c2) - sin(la * R) * sin(g1)); double gn, ge; local(K("lat"), K("lon"), g1 / R, g2 / R, gn, ge); r.raw("gl", jarr({gn, ge, al - x(9)}, 1e3)); } else { r.raw("gl", "[0,0,0]"); r.i("ot", 0).i("ola", 0).i("olo", 0).i("oal", 0); } }
	if (has("soln")) { uint16_t s1 = 0xffff; dirty_stack(); f.get_ekf_soln_status(&s1); r.i("sol", s1); uint16_t st; float m, v, p, h, t2, hg, be; f.get_innovation_test_status(st, m, v, p, h, t2, hg, be); r.i("its", st).raw("itr", jarr({m, v, p, h, t2, hg, be}, 1e4)); }
	if (has("terr")) { r.b("tv", f.isTerrainEstimateValid()).i("ts", f.getTerrainEstimateSensorBitfield()).f("tp", f.getTerrainVertPos(), 1e3).f("tvar", f.get_terrain_var(), 1e3); }
	if (has("gsf")) {
		float yc = 0, yv = 0, y[N_MODELS_EKFGSF] = {}, vn[N_MODELS_EKFGSF] = {}, ve[N_MODELS_EKFGSF] = {}, w[N_MODELS_EKFGSF] = {};
		const bool ok = e->getDataEKFGSF(&yc, &yv, y, vn, ve, w); std::vector<double> ys(y, y + N_MODELS_EKFGSF), ws(w, w + N_MODELS_EKFGSF);
		double sn = 0, cn = 0, sw = 0; for (int i = 0; i < N_MODELS_EKFGSF; i++) { sn += w[i] * sin(y[i]); cn += w[i] * cos(y[i]); sw += w[i]; }
		r.b("gok", ok).f("gy", yc, 1e4).f("gv", yv, 1e5).raw("gys", jarr(ys, 1e4)).raw("gws", jarr(ws, 1e6)).f("gwm", atan2(sn, cn), 1e4).f("gwl", std::hypot(sn, cn), 1e4).f("ghr", yv > 0 ? std::sqrt(yv) : 0, 1e4);
		double vs = 0; for (int i = 0; i < N_MODELS_EKFGSF; i++) { double d = std::remainder(yc - y[i], 2 * M_PI); vs += w[i] * d * d; } std::vector<double> gi; for (int i = 0; i < N_MODELS_EKFGSF; i++) { gi.push_back(std::hypot(vn[i], ve[i])); } r.f("gvs", vs, 1e5).raw("gis", jarr(gi, 1e3)); std::vector<double> lw; for (double z : ws) { lw.push_back(z > 0 ? std::log(z) : -99); } r.raw("gln", jarr(lw, 1e3));
	}
	if (has("out")) { const Vector3f p = f.getPosition(), v = f.getVelocity(); const Quatf q = f.getQuaternion(); r.raw("op", vec(p, 3, 1e3)).raw("ov3", vec(v, 3, 1e3)).raw("oq", vec(q, 4, 1e5)).raw("ote", vec(f.getOutputTrackingError(), 3, 1e5)).f("ovd", f.getVerticalPositionDerivative(), 1e3).raw("oac", vec(f.getVelocityDerivative(), 3, 1e3)); }
	if (has("obs")) { const Vector3f p = f.getPosition(), v = f.getVelocity(); const Quatf q = f.getQuaternion();
		r.raw("op", vec(p, 3, 1e5)).raw("ov", vec(v, 3, 1e6)).raw("oq", vec(q, 4, 30000)).raw("ote", vec(f.getOutputTrackingError(), 3, 1e5)).f("ovd", f.getVerticalPositionDerivative(), 1e6).raw("oac", vec(f.getVelocityDerivative(), 3, 1e5));
		r.raw("dqo", jarr({dqo.x, dqo.y, dqo.z}, 1e7)).raw("dqp", jarr({dqp.x, dqp.y, dqp.z}, 1e7)).raw("sq", jarr({x(0), x(1), x(2), x(3)}, 30000)).raw("sv", jarr({x(4), x(5), x(6)}, 1e6)).raw("spo", jarr({x(7), x(8), x(9)}, 1e5)).raw("sgb", jarr({x(10), x(11), x(12)}, 1e7)).raw("sab", jarr({x(13), x(14), x(15)}, 1e7));
		r.raw("ida", jarr({last_da.x, last_da.y, last_da.z}, 1e7)).raw("idv", jarr({last_dv.x, last_dv.y, last_dv.z}, 1e7)).i("td", tr(f.get_imu_sample_delayed().time_us, t0)); const auto &z = f; (void)z; }
	if (has("acc")) { float eph, epv, evh, evv; f.get_ekf_gpos_accuracy(&eph, &epv); r.f("geph", eph, 1e3).f("gepv", epv, 1e3); f.get_ekf_lpos_accuracy(&eph, &epv); r.f("leph", eph, 1e3).f("lepv", epv, 1e3); f.get_ekf_vel_accuracy(&evh, &evv); r.f("evh", evh, 1e3).f("evv", evv, 1e3); float a, b, c, d; f.get_ekf_ctrl_limits(&a, &b, &c, &d); r.raw("cl", jarr({a, b, c, d}, 1e3)); }
	if (has("world")) { r.raw("tw", jarr({K("wn"), K("we")}, 1e3)).raw("tb", jarr({K("gyr.bx"), K("gyr.by"), K("gyr.bz")}, 1e5)).raw("tab", jarr({K("acc.bx"), K("acc.by"), K("acc.bz")}, 1e3)).f("tt", K("terrain"), 1e3).raw("gb", vec(f.getGyroBias(), 3, 1e5)).raw("ab", vec(f.getAccelBias(), 3, 1e3)).raw("gbv", vec(f.getGyroBiasVariance(), 3, 1e10)).raw("abvr", vec(f.getAccelBiasVariance(), 3, 1e6)); }
	if (has("truth")) {
		const Truth &h = at((int64_t)f.get_imu_sample_delayed().time_us);
		r.raw("tp3", jarr({h.p.x, h.p.y, h.p.z}, 1e3)).raw("tv3", jarr({h.v.x, h.v.y, h.v.z}, 1e3)).f("ty", h.y, 1e4);
		const M3 A = h.R(); const Dcmf B(Quatf(x(0), x(1), x(2), x(3))); M3 Bm; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Bm.m[3 * i + j] = B(i, j); }
		const M3 E = A.T() * Bm; r.f("ae", nrm(rotvec(E)), 1e4); const V3 g1 = A.T() * V3{0, 0, 1}, g2 = Bm.T() * V3{0, 0, 1}; r.f("te", nrm(g1 - g2), 1e4);
		r.f("ye", std::remainder(matrix::Eulerf(Quatf(x(0), x(1), x(2), x(3))).psi() - h.y, 2 * M_PI), 1e4);
		double pe = 0, ve = 0; const double pp[3] = {h.p.x, h.p.y, h.p.z}, vv[3] = {h.v.x, h.v.y, h.v.z}; for (int i = 0; i < 3; i++) { pe = std::max(pe, std::fabs(x(7 + i) - pp[i])); ve = std::max(ve, std::fabs(x(4 + i) - vv[i])); } (void)pe; r.f("ve", ve, 1e3).f("base", K("alt"), 1e3);
	}
	if (has("baro")) { const baroSample &b = f.get_baro_sample_delayed(); r.i("bt", tr(b.time_us, t0)).f("bh", b.hgt, 1e3); }
	if (has("rest")) { r.f("vib1", f.getImuVibrationMetrics()(1) * 4e4, 1e6).f("vib2", f.getImuVibrationMetrics()(2) * 2.1e2, 1e6).f("angr", nrm(last_da) / std::min(0.02, std::max(1e-4, K("imu.dt") * 1e-6)), 1e6); }
	if (has("hst")) { // bit-exact digests of states and covariance, and of the terrain filter
		uint64_t hsh = 1469598103934665603ull, ht = hsh; auto add = [](uint64_t &h, float v) { unsigned char c[4]; memcpy(c, &v, 4); for (int i = 0; i < 4; i++) { h = (h ^ c[i]) * 1099511628211ull; } };
		const auto &P = f.covariances(); for (int i = 0; i < 24; i++) { add(hsh, x(i)); for (int j = 0; j < 24; j++) { add(hsh, P(i, j)); } }
		add(ht, f.getTerrainVertPos()); add(ht, f.get_terrain_var());
		r.raw("hs", "[" + std::to_string(hsh & 0x3fffffff) + "," + std::to_string((hsh >> 30) & 0x3fffffff) + "]").raw("ht", "[" + std::to_string(ht & 0x3fffffff) + "," + std::to_string((ht >> 30) & 0x3fffffff) + "]");
	}
	if (has("hash")) { // bit-exact digest of everything visible, split in 15-bit words so that TLC can compare them
		uint64_t hsh = 1469598103934665603ull; auto add = [&](const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { hsh = (hsh ^ c[i]) * 1099511628211ull; } };
		for (int i = 0; i < 24; i++) { float v = x(i); add(&v, 4); } const auto &P = f.covariances(); for (int i = 0; i < 24; i++) for (int j = 0; j < 24; j++) { float v = P(i, j); add(&v, 4); }
		const Vector3f p = f.getPosition(), v = f.getVelocity(); const Quatf q = f.getQuaternion(); for (int i = 0; i < 3; i++) { float a = p(i), b = v(i); add(&a, 4); add(&b, 4); } for (int i = 0; i < 4; i++) { float a = q(i); add(&a, 4); }
		{ // innovations, variances and ratios, status words, accuracies, events, emergency yaw
			float h2[2], a2[2], v2, w2, r4[4]; auto F = [&](float z) { add(&z, 4); };
			f.getGpsVelPosInnov(h2, v2, a2, w2); F(h2[0]); F(h2[1]); F(a2[0]); F(a2[1]); F(v2); F(w2); f.getGpsVelPosInnovVar(h2, v2, a2, w2); F(h2[0]); F(h2[1]); F(a2[0]); F(a2[1]); F(v2); F(w2);
			f.getGpsVelPosInnovRatio(r4[0], r4[1], r4[2], r4[3]); for (float z : r4) { F(z); }
			f.getEvVelPosInnov(h2, v2, a2, w2); F(h2[0]); F(h2[1]); F(a2[0]); F(a2[1]); F(v2); F(w2); f.getEvVelPosInnovVar(h2, v2, a2, w2); F(h2[0]); F(h2[1]); F(a2[0]); F(a2[1]); F(v2); F(w2);
			f.getEvVelPosInnovRatio(r4[0], r4[1], r4[2], r4[3]); for (float z : r4) { F(z); }
			f.getBaroHgtInnov(v2); F(v2); f.getBaroHgtInnovVar(v2); F(v2); f.getBaroHgtInnovRatio(v2); F(v2); f.getRngHgtInnov(v2); F(v2); f.getRngHgtInnovVar(v2); F(v2); f.getRngHgtInnovRatio(v2); F(v2);
			f.getAuxVelInnov(h2); F(h2[0]); F(h2[1]); f.getAuxVelInnovVar(h2); F(h2[0]); F(h2[1]); f.getAuxVelInnovRatio(v2); F(v2); f.getFlowInnov(h2); F(h2[0]); F(h2[1]); f.getFlowInnovVar(h2); F(h2[0]); F(h2[1]); f.getFlowInnovRatio(v2); F(v2);
			f.getHeadingInnov(v2); F(v2); f.getHeadingInnovVar(v2); F(v2); f.getHeadingInnovRatio(v2); F(v2); float m3[3]; f.getMagInnov(m3); for (float z : m3) { F(z); } f.getMagInnovVar(m3); for (float z : m3) { F(z); } f.getMagInnovRatio(v2); F(v2);
			f.getDragInnov(h2); F(h2[0]); F(h2[1]); f.getDragInnovVar(h2); F(h2[0]); F(h2[1]); f.getDragInnovRatio(h2); F(h2[0]); F(h2[1]); f.getAirspeedInnov(v2); F(v2); f.getAirspeedInnovVar(v2); F(v2); f.getAirspeedInnovRatio(v2); F(v2);
			f.getBetaInnov(v2); F(v2); f.getBetaInnovVar(v2); F(v2); f.getBetaInnovRatio(v2); F(v2); f.getHaglInnov(v2); F(v2); f.getHaglInnovVar(v2); F(v2); f.getHaglInnovRatio(v2); F(v2);
			const uint32_t we = f.warning_event_status().value, ie = f.information_event_status().value; add(&we, 4); add(&ie, 4); const uint16_t nv = f.innov_check_fail_status().value; add(&nv, 2);
			uint16_t s1 = 0; f.get_ekf_soln_status(&s1); add(&s1, 2); float x7[7]; uint16_t st; f.get_innovation_test_status(st, x7[0], x7[1], x7[2], x7[3], x7[4], x7[5], x7[6]); add(&st, 2); for (float z : x7) { F(z); }
			const bool bb[5] = {f.inertial_dead_reckoning(), f.local_position_is_valid(), f.global_position_is_valid(), f.isTerrainEstimateValid(), f.attitude_valid()}; for (bool z : bb) { const unsigned char q1 = z; add(&q1, 1); }
			f.get_ekf_gpos_accuracy(&h2[0], &h2[1]); F(h2[0]); F(h2[1]); f.get_ekf_lpos_accuracy(&h2[0], &h2[1]); F(h2[0]); F(h2[1]); f.get_ekf_vel_accuracy(&h2[0], &h2[1]); F(h2[0]); F(h2[1]); f.get_ekf_ctrl_limits(&r4[0], &r4[1], &r4[2], &r4[3]); for (float z : r4) { F(z); }
			bool bl = false; float dm[3] = {}; if (e->get_gps_drift_metrics(dm, &bl)) { for (float z : dm) { F(z); } } uint16_t gc; f.get_gps_check_status(&gc); add(&gc, 2);
			float yc = 0, yv = 0, gy[N_MODELS_EKFGSF] = {}, gn[N_MODELS_EKFGSF] = {}, ge[N_MODELS_EKFGSF] = {}, gw[N_MODELS_EKFGSF] = {}; if (e->getDataEKFGSF(&yc, &yv, gy, gn, ge, gw)) { F(yc); F(yv); for (int i = 0; i < N_MODELS_EKFGSF; i++) { F(gy[i]); F(gn[i]); F(ge[i]); F(gw[i]); } }
			const Vector3f te = f.getOutputTrackingError(), va = f.getVelocityDerivative(), vb = f.getImuVibrationMetrics(), gb = f.getGyroBias(), ab = f.getAccelBias(); for (int i = 0; i < 3; i++) { F(te(i)); F(va(i)); F(vb(i)); F(gb(i)); F(ab(i)); } F(f.getVerticalPositionDerivative());
			float dv[2], dp[2], dq[4], pd, vd; uint8_t cc[5]; f.get_velNE_reset(dv, &cc[0]); f.get_posNE_reset(dp, &cc[1]); f.get_quat_reset(dq, &cc[2]); f.get_posD_reset(&pd, &cc[3]); f.get_velD_reset(&vd, &cc[4]); add(cc, 5); F(dv[0]); F(dv[1]); F(dp[0]); F(dp[1]); F(pd); F(vd); for (float z : dq) { F(z); }
		}
		const uint32_t cv = f.control_status().value; add(&cv, 4); const uint32_t fv = f.fault_status().value; add(&fv, 4); const float tp = f.getTerrainVertPos(), tv = f.get_terrain_var(); add(&tp, 4); add(&tv, 4);
		r.raw("h", "[" + std::to_string(hsh & 0x3fffffff) + "," + std::to_string((hsh >> 30) & 0x3fffffff) + "]");
	}
}
