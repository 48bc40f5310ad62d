// C16: the hash table against std::map, every operation sequence within bounds
#include "../mc.hpp"
#include "../shim_ds.h"
#include "../vf.h"
#include "../vf.h"
using namespace mc;
typedef std::string B;
static const char *modes[] = {"string keys", "constant hash", "length hash", "first-byte hash", "equality and hash by the first letter"};
struct HT {
	void *h; int mode; std::map<B, B> m; std::set<B> ever;
	HT(int mode_) : mode(mode_) { h = ht_new(); if (!ht_init_mode(h, mode)) fail("hashtable_init failed"); }
	static std::string show(const B &b) { std::string s; for (unsigned char c : b) if (c >= 33 && c < 127) s += c; else s += fmt("\\%02x", c); return s.size() > 40 ? s.substr(0, 40) + fmt("...(%zu)", b.size()) : s; }
	void put(const B &k, const B &v) {
		op("put %s=%s", show(k).c_str(), show(v).c_str());
		char *kk = (char *)malloc(k.size()), *vv = (char *)malloc(v.size());
		memcpy(kk, k.data(), k.size()); memcpy(vv, v.data(), v.size());
		int r = ht_put(h, kk, k.size(), vv, v.size());
		memset(kk, 0x5a, k.size()); memset(vv, 0x5a, v.size()); free(kk); free(vv); // the table must have its own copy
		bool dup = m.count(k);
		if (dup && r) fail("put under an existing key reports success");
		if (!dup && !r) fail("put of a new key fails");
		if (!dup) { m[k] = v; ever.insert(k); }
	}
	void remove(const B &k) {
		op("remove %s", show(k).c_str());
		auto it = m.find(k);
		int r = ht_remove_check(h, k.data(), k.size(), it == m.end() ? "" : it->second.data(), it == m.end() ? 0 : it->second.size());
		if (it == m.end()) { if (r) fail("removing an absent key returns an entry"); }
		else { if (r == 0) fail("removing a present key returns nothing"); if (r == 2) fail("remove returns another entry"); m.erase(it); }
	}
	void get(const B &k) {
		size_t vl = 0; void *v = ht_get(h, k.data(), k.size(), &vl); auto it = m.find(k);
		if (it == m.end()) { if (v) fail("get of absent key " + show(k) + " returns a value"); }
		else if (!v) fail("get of present key " + show(k) + " returns nothing");
		else if (vl != it->second.size() || memcmp(v, it->second.data(), vl)) fail("get of key " + show(k) + " returns other bytes");
	}
	struct Col { std::vector<std::pair<B, B>> v; };
	static void cb(const void *k, size_t kl, const void *v, size_t vl, void *a) { ((Col *)a)->v.push_back({B((const char *)k, kl), B((const char *)v, vl)}); }
	void check(const std::vector<B> *keys = nullptr) {
		if (keys) for (auto &k : *keys) get(k); else for (auto &k : ever) get(k);
		Col c; ht_each(h, cb, &c);
		std::sort(c.v.begin(), c.v.end());
		std::vector<std::pair<B, B>> e(m.begin(), m.end());
		if (c.v != e) fail(fmt("iteration visits %zu entries, or other entries, where the map has %zu", c.v.size(), e.size()));
		if (ht_count(h) != m.size()) fail(fmt("count is %zu, expected %zu", ht_count(h), m.size()));
		uint64_t s = ht_capacity(h) * 31 + mode; for (auto &p : m) { s = hash_str(p.first, s); s = hash_str(p.second, s); }
		state(s);
	}
	void done() {
		note("drain"); ht_drain(h); m.clear(); check();
		ht_free(h); ht_delete(h); h = nullptr; if (vf_live != l0) fail(fmt("%lld allocations survive the table", (long long)(vf_live - l0))); history();
	}
	int64_t l0 = vf_live;
};
static B key(int mode, int i)
{
	if (mode == 0) { B k = i == 0 ? "" : i == 1 ? "a" : i == 2 ? "ab" : fmt("key%d", i); k.push_back('\0'); return k; } // string keys include the terminator
	if (i == 0) return B(1, '\0');
	if (i == 1) return B("\0\1", 2);
	if (i == 2) return B("\0\2", 2);
	return fmt("%c%c%d", 'A' + i % 7, 0, i) + B(i % 3, 'x');
}
int main(int argc, char **argv)
{
	bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	static int K = 3, D; D = th ? 7 : 6;
	uint64_t per = 1; for (int i = 0; i < D; i++) per *= 3 * K;
	add("sequences", fmt("every sequence of %d put (2 values)/remove calls over %d keys, 4 hash functions, full comparison after every call", D, K), per * 4, [](uint64_t i) {
		Radix r(i); int mode = r.take(4);
		HT t(mode); note(modes[mode]);
		std::vector<B> ks; for (int k = 0; k < K + 1; k++) ks.push_back(key(mode, k));
		for (int d = 0; d < D; d++) {
			int o = r.take(3 * K), k = o % K;
			if (o / K < 2) t.put(ks[k], B(o / K ? "second" : "1")); else t.remove(ks[k]);
			t.check(&ks);
		}
		t.done();
	});
	static int N; N = th ? 48 : 36;
	add("growth", fmt("tables filled with 0..%d keys (across every growth), then every single removal, re-insertion and second removal", N), (uint64_t)(N + 1) * 4 * N, [](uint64_t i) {
		Radix r(i); int mode = r.take(4), a = r.take(N), n = r.v;
		HT t(mode); note(modes[mode]);
		for (int k = 0; k < n; k++) { t.put(key(mode, k), fmt("value %d", k)); if (k >= n - 1) t.check(); }
		t.remove(key(mode, a)); t.check();
		t.put(key(mode, a), "new"); t.check();
		t.put(key(mode, a), "other"); t.check();
		for (int b = a % 3; b < N; b += 3) { t.remove(key(mode, b)); }
		t.check();
		for (int b = 0; b < n; b++) t.put(key(mode, b), fmt("again %d", b));
		t.check();
		t.done();
	});
	add("fill-check", "tables filled one key at a time up to 300 (thorough 3000) with a full comparison after every put, then emptied one at a time in two orders", 8, [](uint64_t i) {
		int mode = i % 4, rev = i / 4, n = thorough() ? 3000 : 300;
		if (mode == 1 || mode == 2) n /= 4;
		HT t(mode); note(modes[mode]);
		for (int k = 0; k < n; k++) { t.put(key(mode, k), fmt("v%d", k)); t.check(); }
		for (int k = 0; k < n; k++) { t.remove(key(mode, rev ? n - 1 - k : k)); if (k % 5 == 0) t.check(); }
		t.done();
	}, 1);
	add("many keys", "tables filled with 66000 keys (more than two bytes count) and emptied in two orders, compared around 127, 255, 32767 and 65535 keys", 2, [](uint64_t i) {
		int mode = 0, rev = i, n = 66000;
		HT t(mode); note(modes[mode]);
		auto at = [](int c) { for (int b : {128, 256, 32768, 65536}) if (c >= b - 1 && c <= b + 1) return true; return c % 9973 == 0; };
		for (int k = 0; k < n; k++) { t.put(key(mode, k), fmt("v%d", k)); if (at(k + 1)) t.check(); }
		t.put(key(mode, 40000), "new"); t.check();
		for (int k = 0; k < n; k++) { t.remove(key(mode, rev ? n - 1 - k : k)); if (at(n - 1 - k)) t.check(); }
		t.check(); t.done();
	}, 1);
	add("refill", "tables filled with n keys, emptied to n/16, n/8, n/4, n/2, 1 or 0 of them, filled with 2n others, for every n <= 140 and twelve larger ones", 6 * 152 * 2, [](uint64_t i) {
		Radix r(i); int m = r.take(6), rev = r.take(2), n = r.v < 140 ? (int)r.v + 1 : (int[]){200, 255, 256, 257, 511, 512, 513, 600, 800, 1023, 1024, 1025}[r.v - 140];
		int keep = m < 4 ? n >> (4 - m) : 5 - m;
		HT t(0); note(fmt("%s (%d keys, emptied to %d, %d others)", modes[0], n, keep, 2 * n));
		for (int k = 0; k < n; k++) t.put(key(0, k), fmt("v%d", k)); t.check();
		for (int k = 0; k < n - keep; k++) t.remove(key(0, rev ? n - 1 - k : k)); t.check();
		for (int k = n; k < 3 * n; k++) t.put(key(0, k), fmt("w%d", k)); t.check();
		for (int k = 0; k < 3 * n; k += 2) t.remove(key(0, k)); t.check(); t.done();
	});
	add("sizes", "every key length 1..64 and value length 1..80 (and some up to 5000)", 64 * 84 * 2, [](uint64_t i) {
		Radix r(i); int kl = 1 + r.take(64), vi = r.take(84), mode = r.take(2) ? 2 : 0;
		int vl = vi < 80 ? vi + 1 : vi == 80 ? 255 : vi == 81 ? 256 : vi == 82 ? 4096 : 5000;
		HT t(mode); note(fmt("%s, key of %d bytes, value of %d bytes", modes[mode], kl, vl));
		B k(kl, 'k'), v(vl, 0); for (int j = 0; j < vl; j++) v[j] = (char)(j * 7 + 1);
		k[kl - 1] = 0;
		B k2 = k; k2[0] = kl > 1 ? 'z' : 1; if (mode == 0 && kl == 1) k2 = B("q\0", 2);
		t.put(k, v); t.put(k2, B(v.rbegin(), v.rend())); t.check(); t.put(k, "x"); t.check(); t.remove(k); t.check(); t.put(k, v); t.check(); t.done();
	});
	add("byte-keys", "every pair of one-byte keys 1..255 under the string hash (signed characters included), and with a terminator", 255 * 2, [](uint64_t i) {
		int a = 1 + i % 255, two = i / 255;
		HT t(0);
		B ka(1, (char)a); ka.push_back(0); if (two) ka = B(1, (char)a) + "\xff" + B(1, '\0');
		t.put(ka, "A");
		for (int b = 1; b < 256; b++) if (b != a) { B kb(1, (char)b); kb.push_back(0); if (two) kb = B(1, (char)b) + "\xff" + B(1, '\0'); t.get(kb); t.put(kb, "B"); }
		t.check(); t.remove(ka); t.check(); t.done();
	});
	static int E; E = th ? 6 : 5; uint64_t pe = 1; for (int i = 0; i < E; i++) pe *= 10;
	add("own equality", fmt("every sequence of %d put/remove calls over 5 keys of 3 classes of a compare function that looks at the first letter only", E), pe, [](uint64_t i) {
		static const char *const K5[5] = {"a", "Abc", "axxxxxxxxx", "b", "C"};
		Radix r(i); int64_t l0 = vf_live; void *h = ht_new(); if (!ht_init_mode(h, 4)) fail("hashtable_init failed");
		note(modes[4]); std::map<int, std::pair<B, B>> m;
		for (int d = 0; d < E; d++) {
			int o = r.take(10); B k = K5[o % 5], v = fmt("v%d", d) + B((size_t)(d % 3) * 9, 'y'); int c = k[0] | 32; auto it = m.find(c);
			if (o < 5) { op("put %s=%s", k.c_str(), v.c_str()); int ok = ht_put(h, k.data(), k.size(), v.data(), v.size()); if (!!ok == (it != m.end())) fail(ok ? "put under an existing key reports success" : "put of a new key fails"); if (ok) m[c] = {k, v}; }
			else { op("remove %s", k.c_str()); int x = ht_remove_check(h, it == m.end() ? k.data() : k.data(), k.size(), it == m.end() ? "" : it->second.second.data(), it == m.end() ? 0 : it->second.second.size()); if (it == m.end() ? x != 0 : x == 0) fail(x ? "removing an absent key returns an entry" : "removing a present key returns nothing"); if (it != m.end()) m.erase(it); }
			for (auto q : K5) { size_t vl = 0; void *g = ht_get(h, q, strlen(q), &vl); auto w = m.find(q[0] | 32); if (w == m.end() ? g != nullptr : !g || vl != w->second.second.size() || memcmp(g, w->second.second.data(), vl)) fail(fmt("get of key %s is wrong", q)); }
			HT::Col col; ht_each(h, HT::cb, &col); std::sort(col.v.begin(), col.v.end()); std::vector<std::pair<B, B>> e; for (auto &x : m) e.push_back(x.second); std::sort(e.begin(), e.end()); if (col.v != e || ht_count(h) != m.size()) fail("iteration visits other entries");
			uint64_t s = 77; for (auto &x : m) s = hash_str(x.second.first + "=" + x.second.second, s); state(s);
		}
		note("drain"); ht_drain(h); ht_free(h); ht_delete(h); if (vf_live != l0) fail(fmt("%lld allocations survive the table", (long long)(vf_live - l0))); history();
	});
	return run(argc, argv, {"C16", "model_checking", "", {"keys and values of at least one byte, as the interface requires", "string keys include their terminator"}});
}
