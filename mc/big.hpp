// Sizes around what one and two bytes count: rows, pages, groups, results and
// products of 127 .. 129, 255 .. 257, 32767 .. 32769 and 65535 .. 65537.
#pragma once
#include "names.hpp"
namespace big {
using namespace sq; using namespace nm;
static int mask;
static const int NS[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537};
struct B {
	Sess s; int n;
	static string row(int k) { return fmt("(%d, %d)", k, k % 2); } // id, g
	void sql(const string &q, int64_t naff) { s.quiet = false; s.ok(q, naff); s.quiet = true; }
	void fill(const char *t, int from, int to, int per = 500) { s.quiet = true; mc::note(fmt("(INSERT INTO %s the rows (k, k %% 2) for k = %d .. %d, %d per statement)", t, from, to - 1, per)); for (int k = from; k < to;) { string q = fmt("INSERT INTO %s VALUES ", t); int c = 0; for (; k < to && c < per; k++, c++) q += (c ? ", " : "") + row(k); s.ok(q + ";", c); } }
	B(int n_) : n(n_) { s.ok("CREATE TABLE T (id INT, g INT);", 0); fill("T", 0, n); }
	vector<vector<string>> rows(const string &q, size_t want) { s.quiet = false; Got g = s.exec(q); s.quiet = true; if (g.status != VS_ROWS) fail(fmt("status %d (%s) instead of a result", g.status, g.msg.c_str())); if (g.rows.size() != want) fail(fmt("%zu rows instead of %zu", g.rows.size(), want)); mc::outcome(mc::hash_str(q) + want); return g.rows; }
	// the first column holds each id the filter takes exactly once
	void ids(const string &q, std::function<bool(int)> f, int per = 1) { vector<int> want; for (int k = 0; k < n; k++) if (f(k)) for (int j = 0; j < per; j++) want.push_back(k); auto r = rows(q, want.size()); vector<int> got; for (auto &x : r) got.push_back(atoi(x[0].c_str())); std::sort(got.begin(), got.end()); if (got != want) { size_t k = 0; while (got[k] == want[k]) k++; fail(fmt("id %d is in the result instead of %d", got[k], want[k])); } }
	void count(const string &q, long long want) { auto r = rows(q, 1); if (r[0].back() != fmt("%lld", want)) fail("a count of " + r[0].back() + fmt(" instead of %lld", want)); }
};
inline void run(uint64_t i) {
	int n = NS[i]; vector<int> at; for (int k : {0, 1, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536}) if (k < n) at.push_back(k); if (at.back() != n - 1) at.push_back(n - 1);
	auto one = [&](auto body) { size_t m0 = mc::mark(); { B b(n); body(b); b.s.close(); } mc::history(); mc::rewind_to(m0); };
	if (mask & (SEL | WH | GRP)) one([&](B &b) {
		if (mask & SEL) { b.ids("SELECT * FROM T;", [](int) { return true; }); b.ids("SELECT id FROM T;", [](int) { return true; }); b.count("SELECT COUNT(*) FROM T;", n); }
		if (mask & WH) { for (int k : at) b.ids(fmt("SELECT id FROM T WHERE id = %d;", k), [=](int x) { return x == k; }); b.ids(fmt("SELECT id FROM T WHERE id >= %d;", n - 3), [=](int x) { return x >= n - 3; }); b.ids("SELECT id FROM T WHERE g = 1;", [](int x) { return x % 2; }); b.ids(fmt("SELECT id FROM T WHERE id <> %d AND id >= 0;", n / 2), [=](int x) { return x != n / 2; }); }
		if (mask & GRP) { b.count("SELECT COUNT(*) FROM T;", n); auto r = b.rows("SELECT g, COUNT(*) FROM T GROUP BY g;", 2); for (auto &x : r) if (x[1] != fmt("%d", x[0] == "1" ? n / 2 : n - n / 2)) fail("the group of " + x[0] + " has " + x[1] + " rows"); b.count(fmt("SELECT COUNT(*) FROM T WHERE id <> %d;", n / 2), n - 1);
			b.sql("UPDATE T SET g = 7;", n); auto q = b.rows("SELECT g, COUNT(*) FROM T GROUP BY g;", 1); if (q[0][1] != fmt("%d", n)) fail("one group of " + q[0][1] + fmt(" rows instead of %d", n)); if (n < 1000) b.ids("SELECT id FROM T GROUP BY id;", [](int) { return true; }); } });
	if (mask & DEL) { one([&](B &b) { b.sql(fmt("DELETE FROM T WHERE id <> %d;", n - 1), n - 1); b.ids("SELECT id FROM T;", [=](int x) { return x == n - 1; }); b.fill("T", 0, 3); b.ids("SELECT id FROM T WHERE id > 1;", [=](int x) { return x == n - 1 || x == 2; }); });
		one([&](B &b) { for (int k : at) b.sql(fmt("DELETE FROM T WHERE id = %d;", k), 1); std::set<int> gone(at.begin(), at.end()); b.ids("SELECT id FROM T;", [=](int x) { return !gone.count(x); }); b.sql("DELETE FROM T;", n - (int)gone.size()); b.rows("SELECT id FROM T;", 0); }); }
	if (mask & UPD) one([&](B &b) { for (int k : at) b.sql(fmt("UPDATE T SET g = 5 WHERE id = %d;", k), 1); std::set<int> hit(at.begin(), at.end()); b.ids("SELECT id FROM T WHERE g = 5;", [=](int x) { return hit.count(x) > 0; }); b.sql("UPDATE T SET g = NULL WHERE g <> 5;", n - (int)hit.size()); b.ids("SELECT id FROM T WHERE g IS NULL;", [=](int x) { return !hit.count(x); }); b.sql("UPDATE T SET g = 1;", n); b.ids("SELECT id FROM T WHERE g = 1;", [](int) { return true; }); });
	if (mask & JN) { one([&](B &b) { b.s.quiet = true; b.sql("CREATE TABLE R (k INT, w INT);", 0); b.fill("R", n - 2, n + 1); for (int t = 0; t < 2; t++) { b.ids(fmt("SELECT id, w FROM %s JOIN %s ON id = k;", t ? "R" : "T", t ? "T" : "R"), [=](int x) { return x >= n - 2; }); b.ids(fmt("SELECT id FROM %s, %s WHERE k = %d;", t ? "R" : "T", t ? "T" : "R", n - 1), [](int) { return true; }); } b.count("SELECT COUNT(*) FROM T JOIN R ON id >= k;", 3); });
		int a = n < 1000 ? n : n < 40000 ? 181 : 256, c = n < 1000 ? n < 200 ? 256 : 257 : (n + a - 1) / a; // products on both sides of 32768 and 65536
		size_t m0 = mc::mark(); { B b(a); b.sql("CREATE TABLE R (k INT, w INT);", 0); b.fill("R", 0, c); b.ids("SELECT id, k FROM T, R;", [](int) { return true; }, c); b.count("SELECT COUNT(*) FROM T, R;", 1LL * a * c); b.ids(fmt("SELECT id FROM T, R WHERE k = %d;", c - 1), [](int) { return true; }); b.s.close(); } mc::history(); mc::rewind_to(m0); }
	if (mask & INS) { int per = n < 1000 ? n : 4000; B b(0); b.n = n; b.fill("T", 0, n, per); b.ids("SELECT * FROM T;", [](int) { return true; }); b.s.close(); mc::history(); }
}
inline void add_big(int kinds) { mask = kinds; mc::Suite w; w.name = "numbers of rows"; w.what = "tables and results of 127 .. 65537 rows (around what one and two bytes count), every place at such a boundary looked for"; w.n = sizeof NS / sizeof *NS; w.chunk = 1; w.limit = 200; w.run = run; mc::add(w); }
}
