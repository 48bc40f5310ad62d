// C15: the B-tree against an ordered map, every operation sequence within bounds
#include "../mc.hpp"
#include "../shim_ds.h"
#include "../vf.h"
using namespace mc;
static const int KMAX = 66100;
static uint64_t ul[KMAX], probe_ul[KMAX];
static char str[KMAX][24], probe_str[KMAX][24];
static int vals[KMAX][4];
enum { UL_SMALL, UL_WIDE, STR };
extern "C" { extern int btree_cmp_str(void *, void *); extern int btree_cmp_ul(void *, void *); }
struct Tree {
	void *t; int d, kind, K;
	std::vector<int> m; // key index -> version, -1 absent
	bool strict_shape = true;
	Tree(int d_, int kind_, int K_) : d(d_), kind(kind_), K(K_), m(K_, -1) {
		for (int i = 0; i < K; i++) {
			static const uint64_t wide[] = {0, 1, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffeffffffffull, 0xffffffffffffffffull};
			ul[i] = probe_ul[i] = kind == UL_WIDE && i < 12 ? wide[i] : (uint64_t)i * 3 + 1;
			snprintf(str[i], sizeof str[i], "%.*s%c%d", i % 3, "kkk", 'a' + i, i);
		}
		if (kind == STR) { std::vector<std::string> s; for (int i = 0; i < K; i++) s.push_back(fmt("%s%03d", i % 2 ? "" : "A", i / 2) + (i % 5 ? "x" : "")); s[0] = ""; std::sort(s.begin(), s.end()); for (int i = 0; i < K; i++) { strcpy(str[i], s[i].c_str()); strcpy(probe_str[i], str[i]); } }
		t = bt_init(d, kind == STR ? btree_cmp_str : btree_cmp_ul);
		if (!t) fail("btree_init failed");
	}
	~Tree() { }
	int64_t l0 = vf_live;
	void done() { bt_destroy(t); t = nullptr; if (vf_live != l0) fail(fmt("%lld allocations survive the tree", (long long)(vf_live - l0))); }
	void *key(int i) { return kind == STR ? (void *)str[i] : (void *)&ul[i]; }
	void *probe(int i) { return kind == STR ? (void *)probe_str[i] : (void *)&probe_ul[i]; }
	struct WalkArg { Tree *T; std::string shape; int leafdepth = -1; std::string err; std::vector<std::vector<int>> counts; };
	int index_of(void *k) {
		uintptr_t o = (uintptr_t)k - (uintptr_t)key(0), z = kind == STR ? sizeof str[0] : sizeof ul[0];
		return o % z == 0 && o / z < (size_t)K ? (int)(o / z) : -1;
	}
	static void cb(void *a_, int level, int leaf, int n, void *node) {
		WalkArg *a = (WalkArg *)a_; Tree *T = a->T;
		a->shape += fmt("<%d%c", level, leaf ? 'l' : 'n');
		if (n > 2 * T->d - 1) a->err = fmt("a node holds %d keys, the maximum is %d", n, 2 * T->d - 1);
		else if (n < (level ? T->d - 1 : 1)) a->err = fmt("a node at level %d holds %d keys, the minimum is %d", level, n, level ? T->d - 1 : 1);
		if (leaf) { if (a->leafdepth < 0) a->leafdepth = level; else if (a->leafdepth != level) a->err = fmt("leaves at depths %d and %d", a->leafdepth, level); }
		int prev = -1;
		for (int i = 0; i < n && i < 2 * T->d; i++) {
			int k = T->index_of(bt_node_key(node, i));
			a->shape += fmt(" %d", k);
			if (k < 0) { a->err = "a node holds a key that was never inserted"; return; }
			if (k <= prev) a->err = "the keys of a node are out of order";
			prev = k;
			T->seen.push_back(k); T->seenv.push_back(bt_node_val(node, i));
		}
		a->shape += ">";
	}
	std::vector<int> seen; std::vector<void *> seenv;
	std::string check(int lo = 0, int hi = -1) {
		seen.clear(); seenv.clear();
		WalkArg a; a.T = this;
		bt_walk(t, cb, &a);
		if (!a.err.empty()) fail(a.err + " in " + a.shape);
		std::vector<int> s = seen; std::sort(s.begin(), s.end());
		std::vector<int> e; for (int i = 0; i < K; i++) if (m[i] >= 0) e.push_back(i);
		if (s != e) fail(fmt("the tree holds %zu keys, the map %zu; tree %s", s.size(), e.size(), a.shape.c_str()));
		for (size_t i = 0; i < seen.size(); i++) if (seenv[i] != &vals[seen[i]][m[seen[i]]]) fail(fmt("the value stored with key %d is not the last one stored", seen[i]));
		if (hi < 0) hi = K;
		for (int i = lo; i < hi; i++) {
			void *r = bt_lookup(t, probe(i));
			void *x = m[i] < 0 ? nullptr : &vals[i][m[i]];
			if (r != x) fail(fmt("lookup of %s key %d returns %s", m[i] < 0 ? "the absent" : "the present", i, r == nullptr ? "NULL" : m[i] < 0 ? "a value" : "another value"));
		}
		return a.shape;
	}
	void insert(int k) { m[k] = 0; if (bt_insert(t, key(k), &vals[k][0])) fail(fmt("insert of key %d failed", k)); }
	void remove(int k) { if (bt_remove(t, probe(k)) && m[k] >= 0) fail(fmt("removing the present key %d failed", k)); m[k] = -1; }
	void update(int k, int v) {
		int r = bt_update(t, probe(k), &vals[k][v]);
		if ((r != 0) != (m[k] >= 0)) fail(fmt("update of %s key %d returned %d", m[k] >= 0 ? "the present" : "the absent", k, r));
		if (m[k] >= 0) m[k] = v;
	}
	void apply(int o) { // op code: kind * K + key ; kind 0 toggles presence, 1 updates
		int k = o % K;
		if (o / K == 0) { if (m[k] < 0) insert(k); else remove(k); }
		else if (o / K == 1) update(k, m[k] == 1 ? 2 : 1);
		else if (m[k] < 0) remove(k);
	}
	std::string opname(int o) { int k = o % K; return o / K == 0 ? fmt("%s %d", m[k] < 0 ? "insert" : "remove", k) : o / K == 1 ? fmt("update %d", k) : fmt("remove absent %d", k); }
};
static const char *kinds[] = {"uint64", "wide uint64", "string"};
// breadth-first search over tree states, one state per shape; every transition is
// executed on a tree rebuilt from its history
static void bfs(int d, int kind, int K, size_t max_states)
{
	std::map<std::string, int> seen;
	std::vector<std::vector<int>> hist;
	hist.push_back({});
	seen["" ] = 0;
	for (size_t i = 0; i < hist.size() && hist.size() < max_states; i++) {
		for (int k = 0; k < K; k++) {
			rewind_to(0); note(fmt("btree degree %d, %s keys", d, kinds[kind]));
			Tree t(d, kind, K);
			for (int o : hist[i]) { note(t.opname(o)); t.apply(o); }
			// update and remove-absent probes first: they must not change the shape
			ops(t.opname(K + k)); t.apply(K + k);
			if (t.m[k] < 0) { ops(t.opname(2 * K + k)); t.apply(2 * K + k); t.check(); }
			ops(t.opname(k)); t.apply(k);
			std::string s = t.check();
			state(hash_str(s, d * 100 + kind * 10));
			if (seen.emplace(s, hist.size()).second) { auto h = hist[i]; h.push_back(k); hist.push_back(h); }
			history();
			t.done();
		}
	}
	if (hist.size() >= max_states) fprintf(stderr, "bfs capped\n");
	sample(fmt("btree degree %d, %d %s keys: %zu tree states", d, K, kinds[kind], hist.size()));
}
static std::vector<int> nth_perm(int n, uint64_t r)
{
	std::vector<int> a(n), o; for (int i = 0; i < n; i++) a[i] = i;
	uint64_t f = 1; for (int i = 2; i < n; i++) f *= i;
	for (int i = n - 1; i >= 0; i--) { uint64_t q = r / f; r %= f; o.push_back(a[q]); a.erase(a.begin() + q); if (i) f /= i; }
	return o;
}
static uint64_t fact(int n) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static std::vector<int> order(int n, int which) // a few insertion orders of n keys
{
	std::vector<int> o;
	switch (which) {
	case 0: for (int i = 0; i < n; i++) o.push_back(i); break;
	case 1: for (int i = n - 1; i >= 0; i--) o.push_back(i); break;
	case 2: for (int i = 0; i < n; i += 2) o.push_back(i); for (int i = 1; i < n; i += 2) o.push_back(i); break;
	case 3: for (int i = 0, j = n - 1; i <= j; i++, j--) { o.push_back(i); if (i != j) o.push_back(j); } break;
	case 4: { int s = 1; for (int k : {7, 11, 13, 17, 19, 23}) if (n % k) { s = k; break; } for (int i = 0, x = 0; i < n; i++, x = (x + s) % n) o.push_back(x); } break;
	default: for (int i = n / 2; i < n; i++) o.push_back(i); for (int i = n / 2 - 1; i >= 0; i--) o.push_back(i);
	}
	return o;
}
int main(int argc, char **argv)
{
	setenv("VERIF_TIER", getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", 1);
	bool th = !strcmp(getenv("VERIF_TIER"), "thorough");
	{
		struct P { int d, kind, K; };
		static std::vector<P> ps;
		int x = th ? 1 : 0;
		for (int k = 0; k < 3; k++) { ps.push_back({2, k, 8 + x}); ps.push_back({3, k, 9 + x}); ps.push_back({4, k, 10 + x}); }
		ps.push_back({2, UL_SMALL, 10 + x}); ps.push_back({3, UL_SMALL, 11 + x}); ps.push_back({5, UL_SMALL, 12}); ps.push_back({2, UL_WIDE, 9 + x});
		Suite s; s.name = "bfs"; s.what = "all tree states reachable with insert/remove/update/lookup of K keys (one state per tree shape), every transition from every state";
		s.n = ps.size(); s.chunk = 1; s.limit = th ? 3000 : 300;
		s.run = [](uint64_t i) { bfs(ps[i].d, ps[i].kind, ps[i].K, thorough() ? 400000 : 60000); };
		add(s);
	}
	{
		static int K; K = th ? 7 : 6;
		uint64_t f = fact(K);
		add("perm-insert-remove", fmt("every insertion order of %d keys followed by every removal order, degrees 2 and 3", K), f * 2, [f](uint64_t i) {
			int d = 2 + i % 2; auto ins = nth_perm(K, i / 2);
			for (uint64_t r = 0; r < f; r++) {
				rewind_to(0);
				Tree t(d, UL_SMALL, K);
				auto rem = nth_perm(K, r);
				std::string h = fmt("btree degree %d insert", d);
				for (int k : ins) h += fmt(" %d", k);
				h += " remove"; for (int k : rem) h += fmt(" %d", k);
				note(h); transitions(2 * K);
				for (int k : ins) t.insert(k);
				for (int k : rem) { t.remove(k); t.check(); }
				t.done(); history();
			}
		});
	}
	{
		static int N; N = 9;
		add("perm-remove-9", "six insertion orders of 9 keys (degree 2), every removal order with a re-insertion in the middle", 6 * fact(th ? 9 : 8), [th](uint64_t i) {
			Radix r(i); int w = r.take(6); auto rem = nth_perm(th ? 9 : 8, r.v);
			Tree t(2, UL_SMALL, N);
			note(fmt("btree degree 2 insertion order %d of 9 keys, then", w));
			for (int k : order(N, w)) t.insert(k);
			t.check();
			int c = 0;
			for (int k : rem) {
				op("remove %d", k); t.remove(k); t.check();
				if (++c == 4) { op("insert %d", rem[0]); t.insert(rem[0]); t.check(); }
			}
			t.done(); history();
		}, 2000);
	}
	{
		// deep trees: every sequence of three removals (and one re-insertion)
		struct P { int d, n; };
		static std::vector<P> ps = {{2, 26}, {2, 40}, {3, 60}, {4, 80}};
		for (auto &p : ps) {
			int n = p.n, d = p.d, depth = th ? 3 : 2;
			uint64_t sz = 6; for (int k = 0; k < depth; k++) sz *= n;
			add(fmt("deep-d%d-n%d", d, n), fmt("trees of %d keys (degree %d, six insertion orders): every sequence of %d removals, then all keys removed", n, d, depth), sz, [n, d, depth](uint64_t i) {
				Radix r(i); int w = r.take(6);
				Tree t(d, UL_SMALL, n);
				note(fmt("btree degree %d insertion order %d of %d keys, then", d, w, n));
				for (int k : order(n, w)) t.insert(k);
				t.check();
				for (int s = 0; s < depth; s++) {
					int k = r.take(n);
					if (t.m[k] < 0) { op("insert %d", k); t.insert(k); } else { op("remove %d", k); t.remove(k); }
					state(hash_str(t.check(), 77 * d + n));
				}
				// drain from the other end
				note("drain"); transitions(n);
				for (int k = 0; k < n; k++) { int x = w % 2 ? k : n - 1 - k; if (t.m[x] >= 0) t.remove(x); }
				t.check(); t.done(); history();
			});
		}
		add("large", "trees of 500..3000 keys, six insertion orders x four removal orders, degrees 2..8 and 50, checked after every 97th step", 6 * 4 * 8, [](uint64_t i) {
			Radix r(i); int w = r.take(6), x = r.take(4); static int ds[] = {2, 3, 4, 5, 6, 7, 8, 50}; int d = ds[r.take(8)];
			int n = 500 + 100 * w + (d == 50 ? 500 : 0);
			Tree t(d, UL_SMALL, n);
			note(fmt("btree degree %d insertion order %d of %d keys, removal order %d", d, w, n, x));
			int c = 0;
			for (int k : order(n, w)) { t.insert(k); if (c++ % 97 == 0) t.check(); }
			t.check();
			for (int k : order(n, x)) { t.remove(k); if (c++ % 97 == 0) t.check(); }
			t.check(); t.done(); history(); transitions(2 * n);
		}, 1);
		add("refill", "trees filled with n keys, emptied to n/16, n/8, n/4, n/2, 1 or 0 of them, filled with all, six insertion orders, degrees 2..9, n <= 60 and six larger ones", 6 * 6 * 8 * 66, [](uint64_t i) {
			Radix r(i); int w = r.take(6), m = r.take(6), d = 2 + r.take(8), n = r.v < 60 ? (int)r.v + 1 : (int[]){100, 127, 128, 129, 200, 300}[r.v - 60];
			int keep = m < 4 ? n >> (4 - m) : 5 - m, left = n;
			Tree t(d, UL_SMALL, n); note(fmt("btree degree %d insertion order %d of %d keys, emptied to %d, filled again", d, w, n, keep));
			for (int k : order(n, w)) t.insert(k);
			for (int k : order(n, (w + 1) % 6)) if (left > keep) { t.remove(k); left--; }
			t.check();
			for (int k : order(n, (w + 2) % 6)) if (t.m[k] < 0) t.insert(k);
			t.check(); for (int k : order(n, (w + 3) % 6)) t.remove(k);
			t.check(); for (int k : order(n, w)) if (k % 3) t.insert(k);
			t.check(); t.done(); history(); transitions(4 * n);
		});
		static const int WD[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
		add("wide", "degrees 63..1000, up to 5 nodes' worth of keys, six insertion orders x four removal orders", 6 * 4 * 10, [](uint64_t i) {
			Radix r(i); int w = r.take(6), x = r.take(4), d = WD[r.take(10)], n = 10 * d + w; if (d == 1000) n = 4100 + w;
			Tree t(d, UL_SMALL, n); note(fmt("btree degree %d insertion order %d of %d keys, removal order %d", d, w, n, x));
			int c = 0;
			for (int k : order(n, w)) { t.insert(k); if (c++ % 151 == 0) t.check(); }
			t.check(); c = 0;
			for (int k : order(n, x)) { t.remove(k); if (c++ % 151 == 0) t.check(); }
			t.check(); t.done(); history(); transitions(2 * n);
		}, 1);
		add("many keys", "66000 keys (more than two bytes count), three insertion orders x two removal orders, degrees 2, 3 and 300", 3 * 2 * 3, [](uint64_t i) {
			Radix r(i); int w = r.take(3), x = r.take(2), d = (int[]){2, 3, 300}[r.take(3)], n = 66000;
			Tree t(d, UL_SMALL, n); note(fmt("btree degree %d insertion order %d of %d keys, removal order %d", d, w, n, x));
			auto at = [](int c) { return c == 32767 || c == 32768 || c == 65535 || c == 65536 || c % 9973 == 0; };
			int c = 0;
			for (int k : order(n, w)) { t.insert(k); if (at(++c)) t.check(); }
			t.check(); c = n;
			for (int k : order(n, x)) { t.remove(k); if (at(--c)) t.check(); }
			t.check(); t.done(); history(); transitions(2 * n);
		}, 1);
	}
	return run(argc, argv, {"C15", "model_checking", "", {"keys are distinct while present, as the interface requires", "bounds: number of keys and degrees as listed per suite"}});
}
