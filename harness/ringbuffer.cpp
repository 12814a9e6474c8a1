// Replays call sequences into the real RingBuffer and records calls with results.
// stdin: lines  "new N" | "push T" | "pop T" | "alloc N"      stdout: ndjson
#include "jlog.h"
#include <cstring>
#include <memory>
#include <RingBuffer.h>
struct S { uint64_t time_us; int id; int payload[3]; };
int main()
{
	char op[16]; long long v; int id = 0;
	std::unique_ptr<RingBuffer<S>> b;
	while (scanf("%15s %lld", op, &v) == 2) {
		Rec r(op);
		if (!strcmp(op, "new")) { b.reset(v == 0 ? new RingBuffer<S>() : new RingBuffer<S>((size_t)v)); id = 0; r.i("n", v == 0 ? 1 : v); }
		else if (!strcmp(op, "push")) { ++id; S s{(uint64_t)v, id, {id, 2 * id, 3 * id}}; b->push(s); r.i("t", v).i("id", id); }
		else if (!strcmp(op, "pop")) {
			S s{}; const bool ok = b->pop_first_older_than((uint64_t)v, &s);
			const bool intact = s.payload[0] == s.id && s.payload[1] == 2 * s.id && s.payload[2] == 3 * s.id;
			r.i("T", v).b("ok", ok).i("id", ok ? (intact ? s.id : -1) : 0).i("t", ok ? (long long)s.time_us : 0);
		} else { const bool ok = b->allocate((uint8_t)v); r.i("n", v).b("ok", ok).b("valid", b->valid()); }
		const int n = b->get_length();
		r.i("len", n).i("oldest", b->get_oldest().id).i("newest", b->get_newest().id);
		std::string w = "[";
		for (int i = 0; i < n; i++) { w += (i ? "," : "") + std::to_string((*b)[(uint8_t)((b->get_oldest_index() + i) % n)].id); }
		r.raw("walk", w + "]");
		r.out(stdout);
	}
}
