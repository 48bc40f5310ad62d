// C17: vector, queue, stack and list against std containers, every operation sequence within bounds
#include "../mc.hpp"
#include "../shim_ds.h"
#include "../vf.h"
#include <deque>
#include <list>
using namespace mc;
typedef std::string B;
static const size_t sizes[] = {1, 8, 3, 40, 4096};
static B elem(int n, size_t sz) { B b(sz, 0); for (size_t i = 0; i < sz; i++) b[i] = (char)(n * 31 + i * 7 + 1); return b; }
static std::string hx(const B &b) { return fmt("%zu bytes #%02x", b.size(), (unsigned char)b[0]); }
// the element handed over lives in a buffer that is destroyed after the call
struct Tmp { char *p; Tmp(const B &b) { p = (char *)malloc(b.size()); memcpy(p, b.data(), b.size()); } ~Tmp() { free(p); } };
static bool same(void *p, const B &b) { return p && !memcmp(p, b.data(), b.size()); }
struct Q {
	int64_t l0 = vf_live; void *q; std::deque<B> m; int n = 0;
	Q() { q = qu_new(); if (!qu_init(q)) fail("queue_init failed"); }
	void check() {
		if ((qu_empty(q) != 0) != m.empty()) fail("queue_empty disagrees");
		if (qu_length(q) != m.size()) fail(fmt("queue_length is %zu, expected %zu", qu_length(q), m.size()));
		void *p = qu_peek(q);
		if (m.empty() ? p != nullptr : !same(p, m.front())) fail("queue_peek disagrees");
		for (size_t i = 0; i < m.size(); i++) if (!same(qu_peek_pos(q, i), m[i])) fail(fmt("queue_peek_pos(%zu) is another element", i));
		uint64_t s = 1; for (auto &x : m) s = hash_str(x, s); state(s);
	}
	void offer(const B &b) { op("offer %s", hx(b).c_str()); Tmp t(b); if (!qu_offer(q, t.p, b.size())) fail("queue_offer failed"); m.push_back(b); }
	void poll() {
		op("poll"); void *p = qu_poll(q);
		if (m.empty()) { if (p) fail("queue_poll on the empty queue returns an element"); return; }
		if (!same(p, m.front())) fail("queue_poll returns another element"); vf_release(p); m.pop_front();
	}
	void done() { note("free"); qu_free(q); qu_delete(q); if (vf_live != l0) fail(fmt("%lld allocations survive the queue", (long long)(vf_live - l0))); history(); }
};
struct K {
	int64_t l0 = vf_live; void *s; std::vector<B> m;
	K() { s = sk_new(); if (!sk_init(s)) fail("stack_init failed"); }
	void check() {
		if ((sk_empty(s) != 0) != m.empty()) fail("stack_empty disagrees");
		if (m.empty()) return;
		if (!same(sk_peek(s), m.back())) fail("stack_peek is another element");
		for (size_t i = 0; i < m.size(); i++) if (!same(sk_peek_pos(s, i), m[i])) fail(fmt("stack_peek_pos(%zu) is another element", i));
		uint64_t h = 2; for (auto &x : m) h = hash_str(x, h); state(h);
	}
	void push(const B &b) { op("push %s", hx(b).c_str()); Tmp t(b); if (!sk_push(s, t.p, b.size())) fail("stack_push failed"); m.push_back(b); }
	void upush(const B &b) { op("unsafe_push %s", hx(b).c_str()); void *p = vf_alloc(b.size()); memcpy(p, b.data(), b.size()); if (!sk_unsafe_push(s, p)) fail("stack_unsafe_push failed"); m.push_back(b); if (sk_peek(s) != p) fail("stack_unsafe_push stored another pointer"); }
	void pop() { if (m.empty()) return; op("pop"); void *p = sk_pop(s); if (!same(p, m.back())) fail("stack_pop returns another element"); vf_release(p); m.pop_back(); }
	void done() { note("free"); sk_free(s); sk_delete(s); if (vf_live != l0) fail(fmt("%lld allocations survive the stack", (long long)(vf_live - l0))); history(); }
};
struct V {
	int64_t l0 = vf_live; void *v; B m;
	V() { v = vc_new(); if (!vc_init(v)) fail("vector_init failed"); }
	void check() {
		if (vc_len(v) != m.size()) fail(fmt("the vector holds %zu bytes, expected %zu", vc_len(v), m.size()));
		if (vc_cap(v) < vc_len(v)) fail("length beyond capacity");
		if (memcmp(vc_data(v), m.data(), m.size())) fail("the bytes of the vector differ");
		state(hash_str(m, 3));
	}
	void push(const B &b) { op("push %s", hx(b).c_str()); Tmp t(b); if (!vc_push(v, t.p, b.size())) fail("vector_push failed"); m += b; }
	void bad(int w) { op("invalid push"); char c = 1; if (w == 0 ? vc_push(v, nullptr, 3) : vc_push(v, &c, 0)) fail("an invalid push succeeds"); }
	void clear() { op("clear"); vc_clear(v); m.clear(); }
	void done() { note("free"); vc_free(v); vc_delete(v); if (vf_live != l0) fail(fmt("%lld allocations survive the vector", (long long)(vf_live - l0))); history(); }
};
struct L {
	static const int N = 4;
	void *h[2], *e[N]; std::list<int> m[2]; int where[N];
	L() { for (auto &x : h) { x = li_new(); li_init(x); } for (int i = 0; i < N; i++) { e[i] = li_new(); where[i] = -1; } }
	void check() {
		for (int j = 0; j < 2; j++) {
			if (li_length(h[j]) != m[j].size()) fail(fmt("list_length is %zu, expected %zu", li_length(h[j]), m[j].size()));
			if ((li_is_empty(h[j]) != 0) != m[j].empty()) fail("list_is_empty disagrees");
			void *p = h[j];
			for (int x : m[j]) { void *q = li_next(p); if (q != e[x]) fail("the list links another element"); if (li_prev(q) != p) fail("a prev pointer is wrong"); p = q; }
			if (li_next(p) != h[j] || li_prev(h[j]) != p) fail("the list does not close");
		}
		uint64_t s = 4; for (int j = 0; j < 2; j++) { for (int x : m[j]) s = mix(s, x + 1); s = mix(s, 99); } state(s);
	}
	void apply(int x, int j) {
		if (where[x] < 0) { op("add %d to list %d", x, j); li_add(e[x], h[j]); m[j].push_front(x); where[x] = j; }
		else { op("del %d", x); li_del(e[x]); m[where[x]].remove(x); where[x] = -1; }
	}
	void done() { for (auto x : h) li_delete(x); for (auto x : e) li_delete(x); history(); }
};
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv)
{
	bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	static int DQ, DS, DV, DL; DQ = th ? 12 : 9; DS = th ? 10 : 8; DV = th ? 8 : 6; DL = th ? 7 : 6;
	add("queue", fmt("every sequence of %d offer (1 byte, 40 bytes)/poll calls", DQ), ipow(3, DQ), [](uint64_t i) {
		Radix r(i); Q q;
		for (int d = 0; d < DQ; d++) { int o = r.take(3); if (o == 2) q.poll(); else q.offer(elem(d, o ? 40 : 1)); q.check(); }
		q.done();
	});
	add("queue-bulk", "n offers, m polls, k offers for every n <= 24, m <= n+1, k <= 12, then drained or freed", 25 * 26 * 13 * 2, [](uint64_t i) {
		Radix r(i); int fin = r.take(2), k = r.take(13), m = r.take(26), n = r.take(25); Q q;
		for (int d = 0; d < n; d++) q.offer(elem(d, sizes[d % 5])); q.check();
		for (int d = 0; d < m && d <= n; d++) { q.poll(); q.check(); }
		for (int d = 0; d < k; d++) q.offer(elem(100 + d, sizes[(d + 2) % 5])); q.check();
		if (fin) while (!q.m.empty()) { q.poll(); q.check(); }
		q.done();
	});
	add("stack", fmt("every sequence of %d push/unsafe_push/pop calls", DS), ipow(4, DS), [](uint64_t i) {
		Radix r(i); K s;
		for (int d = 0; d < DS; d++) { int o = r.take(4); if (o == 3) s.pop(); else if (o == 2) s.upush(elem(d, 8)); else s.push(elem(d, o ? 40 : 1)); s.check(); }
		s.done();
	});
	add("stack-bulk", "n pushes, m pops, k pushes for every n <= 24, m <= n, k <= 12, then emptied or freed", 25 * 25 * 13 * 2, [](uint64_t i) {
		Radix r(i); int fin = r.take(2), k = r.take(13), m = r.take(25), n = r.take(25); K s;
		for (int d = 0; d < n; d++) s.push(elem(d, sizes[d % 5])); s.check();
		for (int d = 0; d < m; d++) { s.pop(); s.check(); }
		for (int d = 0; d < k; d++) s.push(elem(100 + d, sizes[(d + 2) % 5])); s.check();
		if (fin) while (!s.m.empty()) { s.pop(); s.check(); }
		s.done();
	});
	add("vector", fmt("every sequence of %d pushes of 1/3/8/40/4096 bytes, clears and invalid pushes", DV), ipow(8, DV), [](uint64_t i) {
		Radix r(i); V v;
		for (int d = 0; d < DV; d++) { int o = r.take(8); if (o < 5) v.push(elem(d, sizes[o])); else if (o == 5) v.clear(); else v.bad(o - 6); v.check(); }
		v.done();
	});
	add("vector-boundary", "a push of every length a <= 130 then of every length b <= 130 (every growth boundary), clear, push", 130 * 130, [](uint64_t i) {
		Radix r(i); int a = 1 + r.take(130), b = 1 + r.take(130); V v;
		v.push(elem(1, a)); v.check(); v.push(elem(2, b)); v.check(); v.push(elem(3, 1)); v.check(); v.clear(); v.check(); v.push(elem(4, b)); v.check(); v.push(elem(5, a)); v.check();
		v.done();
	});
	add("large", "growth: 1..66000 elements (more than two bytes count) one at a time in each structure", 4, [](uint64_t i) {
		int n = 66000; static auto at = [](int c, int step) { return c < 300 || c % step == 0 || (c > 32765 && c < 32771) || (c > 65533 && c < 65539); };
		if (i == 0) { Q q; for (int d = 0; d < n; d++) { q.offer(elem(d, 5)); if (at(d, 2111)) q.check(); } for (int d = 0; d < n; d++) { q.poll(); if (at(d, 2111)) q.check(); } q.check(); q.done(); }
		if (i == 1) { K s; for (int d = 0; d < n; d++) { s.push(elem(d, 5)); if (at(d, 2111)) s.check(); } for (int d = 0; d < n - 7; d++) { s.pop(); if (at(d, 2111)) s.check(); } s.check(); s.done(); }
		if (i == 2) { V v; for (int d = 0; d < n; d++) { v.push(elem(d, 1 + d % 9)); if (at(d, 1553)) v.check(); } v.done(); }
		if (i == 3) { void *h = li_new(); li_init(h); std::vector<void *> e; for (int d = 0; d < n; d++) { void *x = li_new(); li_add(x, h); e.push_back(x); if (li_length(h) != e.size()) fail("list_length wrong"); } for (size_t d = 0; d < e.size(); d += 2) li_del(e[d]); if (li_length(h) != e.size() / 2) fail("list_length wrong after deletions"); for (auto x : e) li_delete(x); li_delete(h); history(); }
	}, 1);
	add("refill", "queues and stacks filled with n elements, emptied to n/16, n/8, n/4, n/2, 1 or 0 of them, filled with 2n more and emptied, for every n <= 700 and twelve larger ones", 2 * 6 * 712, [](uint64_t i) {
		Radix r(i); int st = r.take(2), m = r.take(6), n = r.v < 700 ? (int)r.v + 1 : (int[]){800, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 5000}[r.v - 700]; 
		int keep = m < 4 ? n >> (4 - m) : 5 - m;
		note(fmt("(%d elements, emptied to %d, %d more)", n, keep, 2 * n));
		auto run1 = [&](auto &x, auto put, auto take) { for (int d = 0; d < n; d++) put(x, elem(d, 8)); x.check(); while ((int)x.m.size() > keep) take(x); x.check(); for (int d = 0; d < 2 * n; d++) put(x, elem(d + 7, 8)); x.check(); while ((int)x.m.size() > n) take(x); x.check(); x.done(); };
		if (st) { K x; run1(x, [](K &k, auto e) { k.push(e); }, [](K &k) { k.pop(); }); } else { Q x; run1(x, [](Q &q, auto e) { q.offer(e); }, [](Q &q) { q.poll(); }); }
	});
	add("list", fmt("every sequence of %d add/del calls of 4 elements on two lists", DL), ipow(8, DL), [](uint64_t i) {
		Radix r(i); L l; l.check();
		for (int d = 0; d < DL; d++) { int o = r.take(8); l.apply(o % 4, o / 4); l.check(); }
		l.done();
	});
	return run(argc, argv, {"C17", "model_checking", "", {"pop on an empty stack and peek on an empty stack are outside the interface (they end the process by contract)"}});
}
