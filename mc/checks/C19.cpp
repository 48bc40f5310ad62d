// C19: every allocation of every operation fails once: failure is reported, nothing changes, nothing leaks
#include "../texts.hpp"
#include "../shim_ds.h"
using namespace sq; using namespace mc;
static const char *FSTAT(int s) { return s == VS_ROWS ? "rows" : s == VS_EXEC ? "success" : s == VS_ERROR ? "an error" : "no answer"; }
// everything an observer can see of a database, rows in no particular order
static string digest(vdb *db) {
	static char names[600][160]; int n = vdb_tables(db, names, 600); vector<string> ts; if (n > 600) fail("too many tables");
	for (int i = 0; i < n; i++) { void *t = vdb_table(db, names[i]); if (!t) fail(fmt("table %s is listed but cannot be found", names[i])); string d = string(names[i]) + "["; if (strcmp(vt_name(t), names[i])) fail("a table is listed under another name");
		int nc = vt_ncols(t); for (int c = 0; c < nc; c++) { vcol v; vt_col(t, c, &v); d += v.name; for (int x : {v.type, v.precision, v.indexed, v.nullable, v.unique, v.auto_inc, v.primary_key}) { d += ':'; d += std::to_string(x); } d += ' '; }
		vector<string> rows; vit it; memset(&it, 0, sizeof it); while (vt_next(t, &it)) { string r; for (int c = 0; c < nc; c++) { vcell x; vt_cell(t, &it, c, &x); r += canon(x) + ","; } rows.push_back(r); } std::sort(rows.begin(), rows.end()); for (auto &r : rows) d += "|" + r; ts.push_back(d + "]"); }
	std::sort(ts.begin(), ts.end()); string r; for (auto &t : ts) r += t; return r; }
struct Out { int status; size_t naff; vector<string> cols; vector<vector<string>> rows; string after; bool operator==(const Out &o) const { return status == o.status && naff == o.naff && cols == o.cols && rows == o.rows && after == o.after; } };
static Out go(Sess &s, const string &sql, long failing = 0) { // the failing-th allocation from here on fails
	Out o; vres r; vf_failed = 0; vf_fail_at = failing ? vf_allocs + failing : 0; vdb_exec(s.db, sql.c_str(), &r); o.status = r.status; o.naff = r.status == VS_ROWS || r.status == VS_EXEC ? r.naff : 0;
	if (r.status == VS_ROWS) { int n = vt_ncols(r.table); for (int i = 0; i < n; i++) { vcol c; vt_col(r.table, i, &c); o.cols.push_back(c.name); } vit it; memset(&it, 0, sizeof it); int k; while ((k = vres_step(&r, &it)) == 1) { vector<string> row; for (int i = 0; i < n; i++) { vcell c; vt_cell(r.table, &it, i, &c); row.push_back(canon(c)); } o.rows.push_back(row); if (o.rows.size() > 100000) fail("the result never ends"); } if (k) fail("query_cur_step reports an error in a complete result"); std::sort(o.rows.begin(), o.rows.end()); }
	if (r.status == VS_ERROR && (!r.msg || !*r.msg)) fail("an error without a message");
	vres_free(&r); vf_fail_at = 0; if (vf_locks_held) fail("a lock is still held after the statement"); o.after = digest(s.db); transitions(1); return o; }
static int64_t held(Sess &s) { static char names[400][160]; int n = vdb_tables(s.db, names, 400); int64_t h = 0; for (int i = 0; i < n && i < 400; i++) h += vt_held(vdb_table(s.db, names[i])); return h; }
static void closed(Sess &s) { s.close(); if (vf_live || vf_live_re) fail(fmt("%lld allocations and %lld compiled expressions are lost", (long long)vf_live, (long long)vf_live_re)); }
// every allocation of statement j..end of the history fails once; each time the statement is given again and the rest follows
static void faulted(const vector<string> &H, size_t from, size_t to = (size_t)-1) {
	size_t m = mark(); vector<Out> norm; vector<long> cnt; string start; vector<string> before;
	{ Sess s; for (auto &q : H) { before.push_back(digest(s.db)); note("> " + q); long a = (long)vf_allocs; norm.push_back(go(s, q)); cnt.push_back((long)vf_allocs - a); outcome(mix(hash_str(q), (uint64_t)norm.back().status)); } closed(s); }
	rewind_to(m);
	for (size_t j = from; j < H.size() && j <= to; j++) {
		std::unique_ptr<Sess> s; long k = 1; int64_t kept = 0; bool again = true;
		auto rest = [&] { for (size_t i = j + 1; i < H.size(); i++) { note("> " + H[i]); if (!(go(*s, H[i]) == norm[i])) fail("the statement has another outcome than without the failure before"); } closed(*s); s.reset(); history(); };
		while (again) {
			if (!s) { rewind_to(m); s.reset(new Sess); for (size_t i = 0; i < j; i++) { note("> " + H[i]); if (!(go(*s, H[i]) == norm[i])) fail("the statement has another outcome than the first time"); } kept = vf_live - held(*s); note("> " + H[j] + " -- with its first, second, ... allocation failing"); }
			size_t m2 = mark(); op("allocation %ld fails", k); Out o = go(*s, H[j], k++); bool hit = vf_failed > 0; state(mix(hash_str(H[j]), (uint64_t)k));
			if (!hit) { if (!(o == norm[j])) fail(fmt("no allocation fails any more and the outcome is %s (%s) instead of %s (%s); the tables are %s, expected %s", FSTAT(o.status), show(o.rows).c_str(), FSTAT(norm[j].status), show(norm[j].rows).c_str(), o.after.c_str(), norm[j].after.c_str())); rest(); again = false; }
			else if (o.status == VS_ROWS || o.status == VS_EXEC) { if (!(o == norm[j])) fail(fmt("success is reported, but the outcome differs: %s, %zu affected instead of %s, %zu affected; the tables are %s; they should be %s", show(o.rows).c_str(), o.naff, show(norm[j].rows).c_str(), norm[j].naff, o.after.c_str(), norm[j].after.c_str())); rest(); }
			else { if (o.after != before[j]) fail("failure is reported, but the tables changed from " + before[j] + " to " + o.after); int64_t d = vf_live - held(*s) - kept; if (d || vf_live_re) fail(fmt("failure is reported, and %lld allocations and %lld compiled expressions are %s", (long long)llabs(d), (long long)vf_live_re, d < 0 ? "released once too often" : "lost")); history(); rewind_to(m2); }
			if (k > cnt[j] * 3 + 50) fail("the number of allocations keeps growing"); }
		rewind_to(m); }
}
static const char *const BASE[] = {"CREATE TABLE T (i INT, v VARCHAR(10), w VARCHAR(20) NOT NULL);", "INSERT INTO T VALUES (1, 'a', 'b'), (2, NULL, 'c'), (1, 'a', 'd'), (7, 'q', 'e');", "CREATE TABLE U (k INT, t VARCHAR(5));", "INSERT INTO U VALUES (1, 'u'), (2, NULL), (7, 'u');", "DELETE FROM T WHERE i = 7;"};
static const char *const HIST[] = {"CREATE TABLE N (x INT, y VARCHAR(9), PRIMARY KEY(x), INDEX(y));", "INSERT INTO T VALUES (3, 'x', 'y'), (NULL, 'z', 'zz'), (4, NULL, 'q');", "INSERT INTO U (t, k) VALUES ('n', 1 + 2 * 3 - -4), (NULL, 9 / 0);", "INSERT INTO T VALUES (3, 'x', 'y'), (4, 'z', NULL);", "UPDATE T SET v = 'longer', w = 'q' WHERE i = 1;", "UPDATE T SET v = NULL, i = 5;", "UPDATE U SET k = NULL WHERE t = 'u' AND k < 5;", "DELETE FROM T WHERE i = 1 OR v IS NULL;", "DELETE FROM U;", "SELECT * FROM T;", "SELECT v, COUNT(*) FROM T WHERE w <> 'x' GROUP BY v;", "SELECT T.v, t FROM T, U WHERE i = k;", "SELECT w, k FROM T JOIN U ON i = k AND t = 'u' WHERE v IN ('a', 'q', 'z') XOR w = 'd';", "SELECT COUNT(*) FROM U;", "SELECT nope FROM T;", "DELETE FROM nope WHERE i = 1;", "UPDATE T SET i = 'x';", "SELECT x FROM"};
static const int NH = sizeof HIST / sizeof *HIST;
static vector<string> BUF; static int BUFN;
static vector<string> pre() { vector<string> h; for (auto p : tx::PRE) h.push_back(p); return h; }
static void one(const string &sql) { vector<string> h = pre(); h.push_back(sql); faulted(h, h.size() - 1); }
// ---- data structures: every history of calls, one allocation of which fails
typedef std::function<void(long)> Hist; // runs the history with the n-th allocation failing (0: none)
static void each_alloc(const Hist &h) { size_t m = mark(); h(0); rewind_to(m); for (long k = 1; k < 100000; k++) { vf_failed = 0; note(fmt("allocation %ld of the history fails", k)); h(k); bool hit = vf_failed > 0; vf_fail_at = 0; state(hash_str("ds", (uint64_t)k)); history(); rewind_to(m); if (!hit) return; } fail("the allocations never end"); }
static bool armed_hit(int64_t f0) { return vf_failed > f0; } // did the call just made meet the failing allocation?
typedef std::string B;
static B elem(int n, size_t sz) { B b(sz, 0); for (size_t i = 0; i < sz; i++) b[i] = (char)(n * 31 + i * 7 + 1); return b; }
static void base_() { if (vf_live) fail(fmt("%lld allocations are lost", (long long)vf_live)); }
static void arm(long k) { vf_fail_at = k ? vf_allocs + k : 0; vf_failed = 0; }
#define CALL(what, expr) ([&]() { ops(what); int64_t f = vf_failed; int ok_ = !!(expr); if (!ok_ && !armed_hit(f)) fail(string(what) + " failed without a failing allocation"); if (armed_hit(f)) note(ok_ ? "  (an allocation failed; reported as done)" : "  (an allocation failed; reported)"); return ok_; }())
static const size_t SZ[] = {1, 40, 4096};
static void vec(const vector<int> &s, long k) { void *v = vc_new(); arm(k); B m; if (!CALL("vector_init", vc_init(v))) { base_(); if (!CALL("vector_init", vc_init(v))) fail("fails again"); }
	auto chk = [&] { if (vc_len(v) != m.size() || memcmp(vc_data(v), m.data(), m.size())) fail("the vector's content differs"); }; int n = 0;
	for (int o : s) { if (o == 3) { vc_clear(v); m.clear(); chk(); continue; } B b = elem(n++, SZ[o]); for (int t = 0; t < 2; t++) { if (CALL(fmt("vector_push of %zu bytes", b.size()), vc_push(v, b.data(), b.size()))) { m += b; chk(); break; } chk(); } } vf_fail_at = 0; B b = elem(99, 77); vc_push(v, b.data(), 77); m += b; chk(); vc_free(v); vc_delete(v); base_(); }
static void que(const vector<int> &s, long k) { void *q = qu_new(); arm(k); std::vector<B> m; if (!CALL("queue_init", qu_init(q))) { base_(); if (!CALL("queue_init", qu_init(q))) fail("fails again"); }
	auto chk = [&] { if (qu_length(q) != m.size()) fail(fmt("the queue holds %zu elements, expected %zu", qu_length(q), m.size())); if ((qu_empty(q) != 0) != m.empty()) fail("queue_empty disagrees"); for (size_t i = 0; i < m.size(); i++) { void *p = qu_peek_pos(q, i); if (!p || memcmp(p, m[i].data(), m[i].size())) fail(fmt("element %zu of the queue differs", i)); } }; int n = 0;
	for (int o : s) { if (o == 3) { ops("queue_poll"); void *p = qu_poll(q); if (m.empty() ? p != nullptr : (!p || memcmp(p, m[0].data(), m[0].size()))) fail("queue_poll gives another element"); if (p) { vf_release(p); m.erase(m.begin()); } chk(); continue; } B b = elem(n++, SZ[o]); for (int t = 0; t < 2; t++) { if (CALL(fmt("queue_offer of %zu bytes", b.size()), qu_offer(q, b.data(), b.size()))) { m.push_back(b); chk(); break; } chk(); } }
	vf_fail_at = 0; B b = elem(99, 7); if (!qu_offer(q, b.data(), 7)) fail("queue_offer fails"); m.push_back(b); chk(); qu_free(q); qu_delete(q); base_(); }
static void stk(const vector<int> &s, long k) { void *q = sk_new(); arm(k); std::vector<B> m; if (!CALL("stack_init", sk_init(q))) { base_(); if (!CALL("stack_init", sk_init(q))) fail("fails again"); }
	auto chk = [&] { if ((sk_empty(q) != 0) != m.empty()) fail("stack_empty disagrees"); for (size_t i = 0; i < m.size(); i++) { void *p = sk_peek_pos(q, (int)i); if (!p || memcmp(p, m[i].data(), m[i].size())) fail(fmt("element %zu of the stack differs", i)); } if (!m.empty() && memcmp(sk_peek(q), m.back().data(), m.back().size())) fail("the top of the stack differs"); }; int n = 0;
	for (int o : s) { if (o == 3) { if (m.empty()) continue; ops("stack_pop"); void *p = sk_pop(q); if (!p || memcmp(p, m.back().data(), m.back().size())) fail("stack_pop gives another element"); vf_release(p); m.pop_back(); chk(); continue; }
		B b = elem(n++, SZ[o]); for (int t = 0; t < 2; t++) { if (CALL(fmt("stack_push of %zu bytes", b.size()), sk_push(q, b.data(), b.size()))) { m.push_back(b); chk(); break; } chk(); }
		int64_t fa = vf_fail_at; vf_fail_at = 0; int64_t a = vf_allocs; void *p = vf_alloc(9); if (fa > a) fa += vf_allocs - a; vf_fail_at = fa; B c = elem(n++, 9); memcpy(p, c.data(), 9); for (int t = 0; t < 2; t++) { if (CALL("stack_unsafe_push", sk_unsafe_push(q, p))) { m.push_back(c); chk(); break; } chk(); if (t) fail("fails again"); } }
	vf_fail_at = 0; B b = elem(99, 7); if (!sk_push(q, b.data(), 7)) fail("stack_push fails"); m.push_back(b); chk(); sk_free(q); sk_delete(q); base_(); }
static int HM; static string hk(int i) { return fmt("key%d", i); }
static void hash(const vector<int> &s, int first, long k) { void *h = ht_new(); std::map<B, B> m; auto init = [&](bool a) { if (a) arm(k); if (!CALL("hashtable_init", ht_init_mode(h, HM))) { base_(); if (!CALL("hashtable_init", ht_init_mode(h, HM))) fail("fails again"); } };
	auto z = [](const string &x) { B b = x; b.push_back('\0'); return b; };
	auto chk = [&] { if (ht_count(h) != m.size()) fail(fmt("the table counts %zu entries, expected %zu", ht_count(h), m.size())); for (auto &p : m) { size_t l = 0; void *v = ht_get(h, p.first.data(), p.first.size(), &l); if (!v || l != p.second.size() || memcmp(v, p.second.data(), l)) fail("the value of " + p.first + " is gone or differs"); } struct A { std::map<B, B> m; size_t n = 0; } a; ht_each(h, [](const void *k, size_t kl, const void *v, size_t vl, void *x) { ((A *)x)->m[B((const char *)k, kl)] = B((const char *)v, vl); ((A *)x)->n++; }, &a); if (a.m != m || a.n != m.size()) fail("iteration visits other entries"); };
	auto put = [&](int i, bool chk_) { B key = z(hk(i)), val = fmt("value %d", i); for (int t = 0; t < 2; t++) { if (m.count(key)) { ops("hashtable_put of a present key"); if (ht_put(h, key.data(), key.size(), "zz", 2)) fail("is accepted"); chk(); return; } if (CALL(fmt("hashtable_put %s", hk(i).c_str()), ht_put(h, key.data(), key.size(), val.data(), val.size()))) { m[key] = val; if (chk_) chk(); return; } chk(); } fail("fails again"); };
	init(!first); for (int i = 0; i < first; i++) put(100 + i, false); if (first) arm(k);
	for (int o : s) { if (o < 4) put(o, true); else { B key = z(hk(o - 4)); ops("hashtable_remove"); int r = ht_remove(h, key.data(), key.size()); if ((r != 0) != (m.count(key) != 0)) fail("hashtable_remove disagrees"); m.erase(key); chk(); } }
	for (int i = 0; i < 4; i++) put(200 + i, true); vf_fail_at = 0; put(300, true); ht_drain(h); m.clear(); chk(); ht_free(h); ht_delete(h); base_(); }
static uint64_t bk[400]; static int bv[400][3];
static void tree(int deg, int n, int perm, const vector<int> &s, long k) { void *t; for (int i = 0; i < 400; i++) bk[i] = (uint64_t)i * 3 + 1; std::map<int, int> m; bool arm0 = n == 0; if (arm0) arm(k);
	for (int x = 0;; x++) { ops("btree_init"); t = bt_init_ul(deg); if (t) break; if (!vf_failed || x) fail("btree_init failed"); base_(); }
	auto chk = [&] { for (int i = 0; i < 60; i++) { uint64_t p = bk[i]; void *v = bt_lookup(t, &p); auto it = m.find(i); if (v != (it == m.end() ? nullptr : (void *)&bv[i][it->second])) fail(fmt("lookup of key %d gives %s", i, v ? it == m.end() ? "a value though it is absent" : "another value" : "nothing")); } };
	auto ins = [&](int i, bool c) { for (int x = 0; x < 2; x++) { if (CALL(fmt("btree_insert %d", i), bt_insert(t, &bk[i], &bv[i][0]) == 0)) { m[i] = 0; if (c) chk(); return; } chk(); } fail("fails again"); };
	auto rem = [&](int i, bool c) { for (int x = 0; x < 2; x++) { bool had = m.count(i); ops(fmt("btree_remove %d", i)); int64_t f = vf_failed; int rc = bt_remove(t, &bk[i]); if (!had || rc == 0) { m.erase(i); if (c) chk(); return; } if (vf_failed == f) fail("failed without a failing allocation"); chk(); } fail("fails again"); };
	for (int i = 0; i < n; i++) ins(perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 7 + 3) % n, false); if (!arm0) arm(k); chk();
	for (int o : s) { if (o < 0) { rem(-1 - o, true); continue; } if (m.count(o)) { ops(fmt("btree_update %d", o)); if (!bt_update(t, &bk[o], &bv[o][1])) fail("btree_update failed"); m[o] = 1; chk(); } else ins(o, true); }
	for (int i = 0; i < 60; i += 3) if (!m.count(i)) ins(i, true); vf_fail_at = 0; while (!m.empty()) { auto it = m.begin(); std::advance(it, (long)(m.size() / 2)); rem(it->first, true); } ins(5, true); bt_destroy(t); base_(); }
// ---- row storage
static const int tys[] = {VT_VARCHAR, VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE};
struct Store { void *t = nullptr; vector<int> ty; vector<vector<string>> rows; int seq = 0, names = 0;
	vector<vector<string>> dump() { vector<vector<string>> r; vit it; memset(&it, 0, sizeof it); int n = vt_ncols(t); while (vt_next(t, &it)) { vector<string> row; for (int i = 0; i < n; i++) { vcell c; vt_cell(t, &it, i, &c); row.push_back(canon(c)); } r.push_back(row); if (r.size() > rows.size() + 50) break; } return r; }
	void chk(const char *what) { if (vt_ncols(t) != (int)ty.size()) fail(fmt("%s: %d columns, expected %zu", what, vt_ncols(t), ty.size())); for (size_t i = 0; i < ty.size(); i++) { vcol c; vt_col(t, (int)i, &c); if (c.type != ty[i]) fail(fmt("%s: column %zu has another type", what, i)); } auto g = dump(), w = rows; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w) fail(fmt("%s: the table holds %s instead of %s", what, show(g).c_str(), show(w).c_str())); int l, d, e; vt_slots(t, &l, &d, &e); if (l != (int)rows.size()) fail(fmt("%s: %d live slots, %zu rows", what, l, rows.size())); }
	vector<string> canonrow(const vector<vcell> &c) { vector<string> r; for (auto &x : c) r.push_back(canon(x)); return r; }
	vector<vcell> row(vector<string> &hold) { vector<vcell> v(ty.size()); hold.assign(ty.size(), ""); seq++; for (size_t i = 0; i < ty.size(); i++) { memset(&v[i], 0, sizeof v[i]); v[i].type = ty[i]; v[i].null = (seq + i) % 4 == 3; v[i].terminated = 1; if (v[i].null) continue; v[i].i = ty[i] == VT_TINYINT ? seq & 1 : ty[i] == VT_DATE ? seq * 86400LL : seq * 1001 + (int)i; v[i].d = seq / 8.0; hold[i] = fmt("s%d.%zu", seq, i); v[i].s = hold[i].c_str(); v[i].slen = (int)hold[i].size(); } return v; }
	vit at(size_t k) { vit it; memset(&it, 0, sizeof it); for (size_t x = 0; x <= k; x++) if (!vt_next(t, &it)) fail("a row is missing"); return it; }
	size_t find(const vector<string> &r) { auto d = dump(); for (size_t i = 0; i < d.size(); i++) if (d[i] == r) return i; fail("a row is missing"); }
	template <class Fn> bool twice(const string &what, Fn f) { for (int x = 0; x < 2; x++) { ops(what); int64_t fl = vf_failed; int ok = f(); if (ok) { if (vf_failed > fl) note("  (an allocation failed; reported as done)"); return true; } if (vf_failed == fl) fail(what + " failed without a failing allocation"); chk("after the failure"); } fail(what + " fails again"); }
	void init() { for (int x = 0; x < 2; x++) { ops("table_init"); t = rt_init("S"); if (t) return; if (!vf_failed) fail("table_init failed"); base_(); } fail("table_init fails again"); }
	void add() { int y = tys[names % 6]; string n = fmt("c%d", names); twice(fmt("table_add_column %d", y), [&] { return rt_add(t, n.c_str(), y, 12); }); names++; ty.push_back(y); vcell z; memset(&z, 0, sizeof z); auto d = dump(); bool same = d.size() == rows.size(); if (!same) fail("table_add_column changed the number of rows"); vector<vector<string>> w; for (auto r : d) { if (r.size() != ty.size()) fail("a row has no value in the new column"); r.pop_back(); w.push_back(r); } auto a = w, b = rows; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("table_add_column changed the rows"); rows = d; chk("after adding a column"); }
	void rem(int i) { twice(fmt("table_rem_column %d", i), [&] { return rt_rem(t, i); }); ty.erase(ty.begin() + i); for (auto &r : rows) r.erase(r.begin() + i); chk("after removing a column"); }
	void ins(bool c = true) { vector<string> h; auto v = row(h); twice("table_insert_row", [&] { return rt_insert(t, v.data()); }); rows.push_back(canonrow(v)); if (c) chk("after inserting"); }
	void upd(int i) { vector<string> h; auto v = row(h); auto old = rows[(size_t)i]; vit it = at(find(old)); twice("table_update_row", [&] { return rt_update(t, &it, v.data()); }); rows[(size_t)i] = canonrow(v); chk("after updating"); }
	void del(int i) { vit it = at(find(rows[(size_t)i])); twice("table_delete_row", [&] { return rt_delete(t, &it); }); rows.erase(rows.begin() + i); chk("after deleting"); }
	void vac() { twice("table_vacuum", [&] { return rt_vacuum(t); }); chk("after the vacuum"); }
	void end() { vf_fail_at = 0; ins(); add(); ins(); vac(); if (!rt_destroy(t)) fail("table_destroy failed"); base_(); } };
static const int NOPS = 9;
static bool sop(Store &s, int o) { int n = (int)s.rows.size(), c = (int)s.ty.size(); switch (o) { case 0: s.ins(); return true; case 1: s.add(); return c < 100; case 2: if (c < 2) return false; s.rem(0); return true; case 3: if (c < 2) return false; s.rem(c - 1); return true; case 4: if (!n) return false; s.upd(0); return true; case 5: if (n < 2) return false; s.upd(n - 1); return true; case 6: if (!n) return false; s.del(0); return true; case 7: if (n < 2) return false; s.del(n - 1); return true; default: s.vac(); return true; } }
struct Start { int cols, rows, del; };
static void storage(const Start &st, const vector<int> &seq, long k) { Store s; bool early = st.cols == 0; if (early) arm(k); s.init(); for (int i = 0; i < st.cols; i++) s.add(); if (early) { s.add(); s.add(); s.add(); } for (int i = 0; i < st.rows; i++) s.ins(false); for (int i = 0; i < st.del && !s.rows.empty(); i++) { size_t x = (size_t)(i * 5) % s.rows.size(); s.del((int)x); } if (!early) arm(k); s.chk("before"); for (int o : seq) if (!sop(s, o)) { s.end(); return; } s.end(); }
static const Start STARTS[] = {{0, 0, 0}, {1, 0, 0}, {3, 2, 0}, {3, 4, 2}, {4, 130, 3}, {6, 120, 70}};
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static bool TH; TH = th;
	static int DH; DH = th ? 3 : 2; uint64_t nh = 1; for (int i = 0; i < DH; i++) nh *= NH;
	add("histories", fmt("every history of %d of %d statements on two filled tables, every allocation of each statement failing once; each time the tables must be as before; then it is given without a failure and the rest follows", DH, NH), nh, [](uint64_t i) { Radix r(i); vector<string> h; for (auto b : BASE) h.push_back(b); size_t n = h.size(); vector<int> c; for (int d = 0; d < DH; d++) h.push_back(HIST[r.take(NH)]); faulted(h, n); });
	add("statements", fmt("%zu statements of every kind, every allocation failing once", tx::STM.size()), tx::STM.size(), [](uint64_t i) { one(tx::STM[i]); }, 1);
	static vector<string> RF; { const char *cols[] = {"id", "v", "d", "b", "dt", "ts"}, *lits[] = {"3", "'a'", "1.5", "TRUE", "'2024-02-29'", "'2024-02-29 10:11:12'", "NULL", "'a text too long for any column of this table'"}, *ops[] = {"=", "<"};
		for (int c = 0; c < 6; c++) for (int l = 0; l < 8; l++) { string C_ = cols[c], L_ = lits[l]; RF.push_back("INSERT INTO A (" + C_ + ") VALUES (" + L_ + ");"); RF.push_back("UPDATE A SET " + C_ + " = " + L_ + " WHERE id = 2;"); RF.push_back("INSERT INTO D (k, s) VALUES (" + L_ + ", 0.5), (1, " + L_ + ");");
			for (auto o : ops) { string w = C_ + " " + o + " " + L_, r = L_ + " " + o + " " + C_; for (auto &x : {w, r}) { RF.push_back("DELETE FROM A WHERE " + x + ";"); RF.push_back("UPDATE A SET id = 9 WHERE " + x + ";"); RF.push_back("SELECT id FROM A WHERE " + x + ";"); } RF.push_back("SELECT A.id FROM A JOIN B ON " + string("A.") + w + ";"); if (l < 6) { string y = C_ + " " + o + " " + cols[l]; RF.push_back("DELETE FROM A WHERE " + y + ";"); RF.push_back("UPDATE A SET id = 9 WHERE " + y + ";"); RF.push_back("SELECT id FROM A WHERE " + y + ";"); RF.push_back("SELECT id FROM A WHERE " + L_ + " " + o + " " + lits[(l + c) % 8] + ";"); RF.push_back("DELETE FROM A WHERE " + L_ + " " + o + " " + lits[(l + c) % 8] + ";"); RF.push_back("UPDATE A SET v = 'q' WHERE " + L_ + " " + o + " " + lits[(l + c) % 8] + ";"); } }
			for (auto n : {" IN (", " NOT IN ("}) { RF.push_back("DELETE FROM A WHERE " + C_ + n + L_ + ");"); RF.push_back("UPDATE A SET id = 9 WHERE " + C_ + n + L_ + ");"); RF.push_back("SELECT id FROM A WHERE " + C_ + n + L_ + ");"); } }
		for (auto x : {"CREATE TABLE N (a INT, a INT);", "CREATE TABLE N (a INT, b INT, PRIMARY KEY(c));", "CREATE TABLE N (a INT, INDEX(b));", "CREATE TABLE A (a INT);", "INSERT INTO A (id, id) VALUES (1, 2);", "INSERT INTO A (id, no) VALUES (1, 2);", "INSERT INTO no VALUES (1);", "INSERT INTO A VALUES (1);", "INSERT INTO B (id, w) VALUES (1, 2), (1);", "UPDATE A SET no = 1;", "UPDATE no SET id = 1;", "DELETE FROM no;", "DELETE FROM A WHERE no = 1;", "SELECT no FROM A;", "SELECT id FROM no;", "SELECT id FROM A, B;", "SELECT A.id FROM A, A;", "SELECT A.id FROM A JOIN B ON id = w;", "SELECT x.id FROM A AS x, B AS x;", "SELECT y.id FROM A AS x;", "SELECT v, COUNT(*) FROM A GROUP BY id;", "SELECT v, id FROM A GROUP BY v;", "SELECT v FROM A GROUP BY no;"}) RF.push_back(x); std::sort(RF.begin(), RF.end()); RF.erase(std::unique(RF.begin(), RF.end()), RF.end()); }
	add("types", fmt("%zu statements: every column of every type given, set to, compared with and looked for among every kind of literal and every column, and names that do not resolve: every allocation failing once, so that none is accepted that is refused otherwise", RF.size()), RF.size(), [](uint64_t i) { one(RF[i]); });
	static vector<std::pair<int, int>> roots; { auto &g = tx::gram().g["stmt"]; for (size_t a = 0; a < g.size(); a++) { string nt = g[a][0]; if (tx::gram().g.count(nt)) for (size_t b = 0; b < tx::gram().g[nt].size(); b++) roots.push_back({(int)a, (int)b}); else roots.push_back({(int)a, -1}); } }
	static vector<string> der; { static int dummy; (void)dummy; for (auto &r : roots) tx::derive(th ? 3 : 2, r.first, r.second, [](const string &s) { der.push_back(s); }); std::sort(der.begin(), der.end()); der.erase(std::unique(der.begin(), der.end()), der.end()); }
	add("derivations", fmt("every statement of the query language's grammar with up to %d of its choices not the first one: every allocation failing once", th ? 3 : 2), der.size(), [](uint64_t i) { one(der[i]); });
	add("rows", "INSERT, UPDATE, DELETE, SELECT, GROUP BY and JOIN of 1 .. 40 rows of wide text columns (up to several pages), every allocation failing once", 40 * 6, [](uint64_t i) { int n = (int)(i / 6) + 1, op_ = (int)(i % 6); if (n > 12 && n % 7 && !TH) return; Tab t; t.name = "T"; t.cols = {C("k"), C("v", VT_VARCHAR, 900), C("w", VT_VARCHAR, 900)}; vector<Row> rows; for (int k = 0; k < n; k++) rows.push_back({Int(k % 5), k % 6 == 5 ? Nul(VT_VARCHAR) : Str(string((size_t)(k * 37 % 800), (char)('a' + k % 3))), Str(fmt("w%d", k % 3))});
		vector<string> h = {t.create()}; string ins = insert_sql("T", rows); if (op_) h.push_back(ins); switch (op_) { case 0: h.push_back(ins); break; case 1: h.push_back("UPDATE T SET v = 'new', w = NULL WHERE k <> 2;"); break; case 2: h.push_back("DELETE FROM T WHERE w = 'w1';"); break; case 3: h.push_back("SELECT v, k FROM T WHERE w <> 'w2';"); break; case 4: h.push_back("SELECT w, COUNT(*) FROM T GROUP BY w;"); break; default: h.push_back("CREATE TABLE U (k INT, x VARCHAR(3));"); h.push_back("INSERT INTO U VALUES (1, 'a'), (3, NULL);"); h.push_back("SELECT v, x FROM T JOIN U ON T.k = U.k;"); } faulted(h, h.size() - 1); });
	add("tables", "CREATE of the n-th table, n up to 60: every allocation failing once, the catalogue's growth included", 60, [](uint64_t i) { vector<string> h; for (int k = 0; k <= (int)i; k++) h.push_back(fmt("CREATE TABLE %c%d (a INT NOT NULL, b VARCHAR(%d));", 'a' + k % 26, k, k + 1)); h.push_back(fmt("INSERT INTO %c%d VALUES (1, '');", 'a' + (int)i % 26, (int)i)); h.push_back(fmt("CREATE TABLE %c%d (a INT NOT NULL, b VARCHAR(9));", 'A' + (int)i % 26, (int)i)); faulted(h, (size_t)i); });
	{ Suite w; w.name = "wide"; w.what = "CREATE, INSERT, UPDATE and SELECT of tables of 1 .. 128 columns, every allocation failing once"; w.n = 128 * 4; w.limit = 120; w.chunk = 1; w.run = [](uint64_t i) { int n = (int)(i / 4) + 1; size_t j = i % 4; if (n > 6 && n % (TH ? 9 : 30) && n < 127) return; Tab t; t.name = "T"; Row r; for (int c = 0; c < n; c++) { t.cols.push_back(C(fmt("c%d", c), c % 2 ? VT_VARCHAR : VT_INTEGER, 9)); r.push_back(c % 5 == 4 ? Nul(t.cols.back().ty) : c % 2 ? Str(fmt("t%d", c)) : Int(c)); } vector<string> h = {t.create(), insert_sql("T", {r, r}), fmt("UPDATE T SET c%d = NULL WHERE c0 = 0;", n - 1), fmt("SELECT c%d FROM T WHERE c0 IS NOT NULL;", n - 1)}; faulted(h, j, j); }; add(w); }
	add("open", "database_open with every allocation failing", 1, [](uint64_t) { for (long k = 1;; k++) { arm(k); note(fmt("database_open, allocation %ld fails", k)); vdb *d = vdb_open(); bool hit = vf_failed > 0; vf_fail_at = 0; if (d) { vdb_close(d); if (!hit && vf_live) fail("allocations are lost"); } else if (!hit) fail("database_open failed"); transitions(1); state((uint64_t)k); history(); base_(); if (!hit) return; } }, 1);
	static int DS; DS = th ? 7 : 5; uint64_t n4 = 1; for (int i = 0; i < DS; i++) n4 *= 4;
	add("vector, queue, stack", fmt("every history of %d pushes of three sizes and one removal, with every allocation of it failing once", DS), n4 * 3, [](uint64_t i) { Radix r(i); int w = (int)r.take(3); vector<int> s; for (int d = 0; d < DS; d++) s.push_back((int)r.take(4)); each_alloc([&](long k) { if (w == 0) vec(s, k); else if (w == 1) que(s, k); else stk(s, k); }); });
	add("growth", "up to 60 pushes in a row, every allocation failing once", 3 * 2, [](uint64_t i) { vector<int> s((size_t)(TH ? 150 : 60), (int)(i / 3)); each_alloc([&](long k) { if (i % 3 == 0) vec(s, k); else if (i % 3 == 1) que(s, k); else stk(s, k); }); }, 1);
	static int DT; DT = th ? 5 : 4; uint64_t n8 = 1; for (int i = 0; i < DT; i++) n8 *= 8;
	add("hash table", fmt("every history of %d puts and removals of 4 keys, in an empty table and in one about to grow, then four more puts; every allocation failing once", DT), n8 * 2, [](uint64_t i) { Radix r(i); int g = (int)r.take(2); vector<int> s; for (int d = 0; d < DT; d++) s.push_back((int)r.take(8)); HM = 0; each_alloc([&](long k) { hash(s, g ? 9 : 0, k); }); });
	add("hash table growth", "tables filled with 0 .. 60 keys, three hash functions, then six puts, every allocation failing once", 61 * 3, [](uint64_t i) { HM = (int)(i % 3); int n = (int)(i / 3); each_alloc([&](long k) { hash({0, 1, 2, 0, 4, 5}, n, k); }); });
	add("b-tree", "trees of degree 2 .. 4 and 0 .. 40 keys in three orders: every single insertion, removal and update, then twenty more, every allocation failing once", 41 * 9, [](uint64_t i) { Radix r(i); int n = (int)r.take(41), deg = 2 + (int)r.take(3), perm = (int)r.take(3); if (perm == 2 && n % 7 == 0 && n) return; for (int x = 0; x < n + 2; x += TH || n < 12 ? 1 : 3) for (int kind = 0; kind < 2; kind++) each_alloc([&](long k) { tree(deg, n, perm, kind ? vector<int>{-1 - x, x} : vector<int>{50 + x % 9, x}, k); }); });
	static int DR; DR = th ? 4 : 3; uint64_t nr = 1; for (int i = 0; i < DR; i++) nr *= NOPS; int NS = sizeof STARTS / sizeof *STARTS;
	add("row storage", fmt("every history of %d row and column operations from %d starts (empty, few rows, several pages, deleted rows), every allocation failing once", DR, NS), nr * (uint64_t)NS, [](uint64_t i) { int NS = sizeof STARTS / sizeof *STARTS; Radix r(i); const Start &st = STARTS[r.take((uint64_t)NS)]; vector<int> s; for (int d = 0; d < DR; d++) s.push_back((int)r.take(NOPS)); if (st.rows > 50 && !TH && s[2] != 0) return; each_alloc([&](long k) { storage(st, s, k); }); });
	return mc::run(argc, argv, {"C19", "fault_enumeration", "each history is run once without a fault, then once for each allocation made in it (malloc, calloc, realloc, strdup, asprintf, regcomp, also those of the generated parser) with exactly that one failing", {"one allocation fails per history; the calls made by the C library on its own account do not fail"}});
}
