// Drives the real AlphaFilter. "new a" | "alpha a" | "par dt tc" | "reset x y z w" | "upd x y z w"   (x.. in 1/100, a in 1e-4, dt/tc in ms)
#include "jlog.h"
#include <cstring>
#include <memory>
#include <mathlib/mathlib.h>
#include <matrix/math.hpp>
#include <AlphaFilter/AlphaFilter.hpp>
using matrix::Vector3f;
static std::string q(float a, const Vector3f &v)
{
	std::string s = "[" + std::to_string(Rec::fx(a, 100));
	for (int i = 0; i < 3; i++) { s += "," + std::to_string(Rec::fx(v(i), 100)); }
	return s + "]";
}
int main()
{
	char line[256]; std::unique_ptr<AlphaFilter<float>> f; std::unique_ptr<AlphaFilter<Vector3f>> g;
	while (fgets(line, sizeof line, stdin)) {
		char op[16]; double a[4] = {}; sscanf(line, "%15s %lf %lf %lf %lf", op, a, a + 1, a + 2, a + 3);
		Rec r(op);
		const float x = (float)(a[0] * 0.01); const Vector3f y((float)(a[1] * 0.01), (float)(a[2] * 0.01), (float)(a[3] * 0.01));
		if (!strcmp(op, "new")) {
			if (a[0] < 0) { f.reset(new AlphaFilter<float>()); g.reset(new AlphaFilter<Vector3f>()); a[0] = 0; }
			else { f.reset(new AlphaFilter<float>((float)(a[0] * 1e-4))); g.reset(new AlphaFilter<Vector3f>((float)(a[0] * 1e-4))); }
			r.i("a", a[0]);
		} else if (!strcmp(op, "alpha")) { f->setAlpha((float)(a[0] * 1e-4)); g->setAlpha((float)(a[0] * 1e-4)); r.i("a", a[0]); }
		else if (!strcmp(op, "par")) { f->setParameters((float)(a[0] * 1e-3), (float)(a[1] * 1e-3)); g->setParameters((float)(a[0] * 1e-3), (float)(a[1] * 1e-3)); r.i("dt", a[0]).i("tc", a[1]); }
		else if (!strcmp(op, "reset")) { f->reset(x); g->reset(y); r.raw("x", q(x, y)); }
		else if (!strcmp(op, "upd")) { const float p = f->update(x); const Vector3f p3 = g->update(y); r.raw("x", q(x, y)).raw("r", q(p, p3)).b("one", true); }
		else { return 3; }
		r.raw("s", q(f->getState(), g->getState()));
		r.out(stdout);
	}
}
