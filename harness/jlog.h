// One-line JSON records for trace files.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstdint>
#include <string>
struct Rec {
	std::string s;
	bool first{true};
	Rec() : s("{") {}
	explicit Rec(const char *e) : s("{") { str("e", e); }
	void key(const char *k) { if (!first) { s += ','; } first = false; s += '"'; s += k; s += "\":"; }
	Rec &str(const char *k, const char *v) { key(k); s += '"'; s += v; s += '"'; return *this; }
	Rec &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
	Rec &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	Rec &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
	// fixed point: round(v*scale), saturated at +-1e9 so that differences stay within TLC's 32-bit integers; NaN -> -1000000007
	static long long fx(double v, double scale)
	{
		if (std::isnan(v)) { return -1000000007LL; }
		const double x = std::round(v * scale);
		if (x > 1000000000.0) { return 1000000000LL; }
		if (x < -1000000000.0) { return -1000000000LL; }
		return (long long)x;
	}
	Rec &f(const char *k, double v, double scale) { return i(k, fx(v, scale)); }
	void out(FILE *f) { s += "}\n"; fputs(s.c_str(), f); }
};
