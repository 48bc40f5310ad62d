// C12: heap, compiled expressions and locks after every statement are accounted for by what is stored
#include "../texts.hpp"
#include <memory>
using namespace sq; using namespace mc;
struct Box { Sess s; int64_t k = 0; // k: what is held besides the rows
	Box(bool prep = true) { s.quiet = true; if (prep) tx::prepare(s); mark_(); }
	int64_t held() { static char names[400][160]; int n = vdb_tables(s.db, names, 400); int64_t h = 0; for (int i = 0; i < n && i < 400; i++) { void *t = vdb_table(s.db, names[i]); if (!t) fail(fmt("table %s is listed but cannot be found", names[i])); h += vt_held(t); } return h; }
	void mark_() { k = vf_live - held(); }
	void settled(const char *what) { int64_t d = vf_live - held() - k; if (d) fail(fmt("%s: %lld allocations %s", what, (long long)llabs(d), d > 0 ? "are still held besides the stored rows" : "too many were released")); if (vf_live_re) fail(fmt("%s: %lld compiled expressions are still held", what, (long long)vf_live_re)); if (vf_locks_held) fail(fmt("%s: a lock is still held", what)); }
	void end() { s.close(); if (vf_live || vf_live_re) fail(fmt("after closing the database %lld allocations and %lld compiled expressions are still held", (long long)vf_live, (long long)vf_live_re)); }
	// one statement, all of its result read
	int run(const string &sql) { mc::ops("> " + sql); vres r; vdb_exec(s.db, sql.c_str(), &r); int st = r.status; if (st == VS_ROWS) { vit it; memset(&it, 0, sizeof it); for (int n = 0; vres_step(&r, &it) == 1 && n < 1000000; n++) ; } vres_free(&r); if (st != VS_EXEC || strncmp(sql.c_str(), "CREATE", 6)) settled(sql.c_str()); else mark_(); return st; }
};
static std::unique_ptr<Box> B_; static int uses;
static void feed(const string &sql) { size_t m = mark(); if (!B_) { B_.reset(new Box); uses = 0; } note("> " + sql); transitions(1);
	vres r; vdb_exec(B_->s.db, sql.c_str(), &r); int st = r.status; if (st == VS_ROWS) { vit it; memset(&it, 0, sizeof it); int steps = (int)(hash_str(sql) % 6); for (int n = 0; n < steps && vres_step(&r, &it) == 1; n++) ; } // some of the result is left unread
	vres_free(&r); state(hash_str(sql)); outcome((uint64_t)st); history();
	static char names[16][160]; bool created = st == VS_EXEC && vdb_tables(B_->s.db, names, 16) != 4; if (!created) B_->settled("after the statement");
	if (created || ++uses > 500) { B_->end(); B_.reset(); } rewind_to(m); }
static const char *const HIST[] = { "CREATE TABLE T (i INT, v VARCHAR(10), w VARCHAR(20) NOT NULL)", "CREATE TABLE T (x INT)", "CREATE TABLE IF NOT EXISTS T (x INT, x INT)", "CREATE TABLE U (k INT, t VARCHAR(5))", "INSERT INTO T VALUES (1, 'a', 'b'), (2, NULL, 'c'), (1, 'a', 'd')", "INSERT INTO T VALUES (3, 'x', 'y'), (4, 'z', NULL)", "INSERT INTO U VALUES (1, 'u'), (2, NULL)", "UPDATE T SET v = 'longer', w = 'q' WHERE i = 1", "UPDATE T SET v = NULL", "UPDATE T SET w = NULL WHERE i = 2", "DELETE FROM T WHERE i = 1", "DELETE FROM T", "DELETE FROM U WHERE t = 'u'", "SELECT * FROM T", "SELECT v, COUNT(*) FROM T GROUP BY v", "SELECT T.v, t FROM T, U WHERE i = k", "SELECT w FROM T WHERE v IN ('a', NULL) OR nope = 1", "SELECT COUNT(*) FROM T JOIN U ON i = k AND t = 'u' WHERE w <> 'd'", "SELECT v" };
static const int NH = sizeof HIST / sizeof *HIST; static int DH;
static Tab wide(int n, int kind) { Tab t; t.name = "T"; for (int i = 0; i < n; i++) t.cols.push_back(C(fmt("c%d", i).c_str(), kind == 0 ? VT_VARCHAR : kind == 1 ? VT_INTEGER : (i % 6), 8)); return t; }
static Row wrow(const Tab &t, int k) { Row r; for (size_t c = 0; c < t.cols.size(); c++) { int ty = t.cols[c].ty; if ((k + c) % 5 == 3) { r.push_back(Nul(ty)); continue; } switch (ty) { case VT_VARCHAR: r.push_back(Str(fmt("%d.%zu", k % 4, c % 7))); break; case VT_INTEGER: r.push_back(Int(k % 3)); break; case VT_TINYINT: r.push_back(Tiny(k & 1)); break; case VT_DOUBLE: r.push_back(Dbl(k % 2 + .5)); break; case VT_DATE: r.push_back(Date("2024-02-29")); break; default: r.push_back(DTime("2024-02-29 10:11:12")); } } return r; }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static bool TH; TH = th; DH = th ? 4 : 3;
	uint64_t nh = 1; for (int i = 0; i < DH - 1; i++) nh *= NH;
	add("histories", fmt("every history of %d of %d statements, good and bad ones, from an empty database; then it is closed", DH, NH), nh, [](uint64_t i) { for (int l = 0; l < NH; l++) { Box b(false); Radix r(i); size_t m = mark(); for (int d = 0; d < DH - 1; d++) b.run(string(HIST[r.take(NH)]) + ";"); b.run(string(HIST[l]) + ";"); b.s.quiet = true; state(mix(mix(1, i), (uint64_t)l)); b.end(); history(); rewind_to(m); } });
	add("results", "results of 0 .. 40 rows, of 1, 60 and 127 columns: read to every row and freed; two and three results held at once over statements that change the table, read and freed in every order", 41 * 3, [](uint64_t i) { int n = (int)(i % 41); static const int W[] = {1, 60, 127}; Tab t = wide(W[i / 41], 2); Box b(false); b.s.create(t); vector<Row> rows; for (int k = 0; k < n; k++) rows.push_back(wrow(t, k)); if (n) b.s.insert("T", rows); b.mark_();
		for (int k = 0; k <= n + 2; k++) { vres r; vdb_exec(b.s.db, "SELECT * FROM T;", &r); if (r.status != VS_ROWS) fail("no result"); vit it; memset(&it, 0, sizeof it); for (int x = 0; x < k; x++) { int rc = vres_step(&r, &it); if (rc != (x < n ? 1 : 0)) fail(fmt("step %d of %d rows gives %d", x, n, rc)); } vres_free(&r); b.settled("after freeing a result read in part"); }
		if (n % 4) return; static const char *const Q[] = {"SELECT * FROM T;", "SELECT c0, COUNT(*) FROM T GROUP BY c0;", "SELECT c0 FROM T WHERE c0 <> '1.0';"}; int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
		for (auto &p : perm) for (int chg = 0; chg < 3; chg++) { size_t m = mark(); vres r[3]; vit it[3]; memset(it, 0, sizeof it); for (int q = 0; q < 3; q++) { vdb_exec(b.s.db, Q[q], &r[q]); if (r[q].status != VS_ROWS) fail("no result"); vres_step(&r[q], &it[q]); }
			if (chg == 1) b.s.ok("UPDATE T SET c0 = 'zz';"); if (chg == 2) { b.s.ok("DELETE FROM T;"); if (n) b.s.ok(insert_sql("T", rows)); }
			for (int x = 0; x < 3; x++) { int q = p[x]; int got = n && q == 0 ? 1 : 0; if (q == 0) { while (vres_step(&r[q], &it[q]) == 1) got++; if (got != n) fail(fmt("a result of %d rows gives %d after the table changed", n, got)); } vres_free(&r[q]); } b.settled("after freeing three results"); history(); rewind_to(m); }
		// results outlive the database
		vres r; vdb_exec(b.s.db, "SELECT * FROM T;", &r); b.s.close(); vit it; memset(&it, 0, sizeof it); int got = 0; while (vres_step(&r, &it) == 1) { vcell c; vt_cell(r.table, &it, 0, &c); got++; } vres_free(&r); if (got != n) fail(fmt("a result of %d rows gives %d after the database was closed", n, got)); if (vf_live || vf_live_re) fail("allocations are still held after the last result was freed"); }, 1);
	add("sizes", "tables of every number of columns up to 128 (all text, all numbers, all types) filled to three pages: every kind of statement", 128 * 3, [](uint64_t i) { int n = (int)(i / 3) + 1; Tab t = wide(n, (int)(i % 3)); Box b(false); b.s.create(t); Tab u; u.name = "U"; u.cols = {C("k", t.cols[0].ty, 8), C("s", VT_VARCHAR, 9)}; b.s.create(u); b.mark_(); int per = (int)(vt_page_size() / vt_row_size(vdb_table(b.s.db, "T"))); int rows = std::min(2 * per + 1, TH ? 160 : 60); vector<Row> R; for (int k = 0; k < rows; k++) R.push_back(wrow(t, k)); vector<Row> U; for (int k = 0; k < 6; k++) U.push_back({R[k][0], k % 2 ? Str("s") : Nul(VT_VARCHAR)}); b.run(insert_sql("T", R)); b.run(insert_sql("U", U));
		string c0 = t.cols[0].name, cl = t.cols.back().name; vector<string> S = {"SELECT * FROM T;", "SELECT " + cl + " FROM T WHERE " + c0 + " IS NOT NULL;", "SELECT " + c0 + ", COUNT(*) FROM T GROUP BY " + c0 + ";", "SELECT COUNT(*) FROM T;", "SELECT s, " + cl + " FROM T JOIN U ON " + c0 + " = k;", "SELECT * FROM T, U;", "SELECT s, COUNT(*) FROM U, T WHERE " + c0 + " = k GROUP BY s;", "SELECT nope FROM T;", "SELECT " + cl + ", nope FROM T GROUP BY " + cl + ";", "UPDATE T SET " + cl + " = NULL WHERE " + c0 + " IS NULL;", "UPDATE T SET " + c0 + " = " + lit(R[0][0]) + ";", "UPDATE T SET nope = 1;", insert_sql("T", {R[0]}), "INSERT INTO T VALUES (1, 2);", "DELETE FROM T WHERE " + c0 + " = nope;", "DELETE FROM T WHERE " + cl + " IS NOT NULL;", "SELECT * FROM T WHERE " + c0 + " = " + lit(R[0][0]) + ";", "DELETE FROM T;", insert_sql("T", R), "SELECT " + c0 + " FROM T;"};
		if (i % 3 == 2 && n > 30 && !TH) S.erase(S.begin() + 5); for (auto &q : S) { int st = b.run(q); outcome(mix((uint64_t)st, hash_str(q))); } b.end(); history(); });
	add("late", "INSERT of up to 60 rows of which one, at every position, breaks a rule", 60, [](uint64_t i) { int n = (int)i + 1; static const char *const X[] = {"(1, NULL, 'x')", "(1, 2, 'toolong')", "(1, 2)", "(1.5, 2, 'x')", "(9223372036854775807 + 1, 2, 'x')", "(1, 1 / 0, 'x')", "(1, 2, 'x'"}; Box b(false); b.s.ok("CREATE TABLE U (i INT, k INT NOT NULL, x VARCHAR(6));"); b.s.ok("INSERT INTO U VALUES (1, 1, 'u');"); b.mark_(); for (int pos = 0; pos < n; pos++) for (int y = 0; y < 7; y++) { size_t m = mark(); string sql = "INSERT INTO U VALUES "; for (int k = 0; k < n; k++) sql += string(k ? ", " : "") + (k == pos ? X[y] : fmt("(%d, %d, 'r%d')", k, k, k % 100).c_str()); if (b.run(sql + ";") != VS_ERROR) fail("a bad row was accepted"); history(); rewind_to(m); } b.end(); });
	add("databases", "up to six databases open at once, opened and closed in every order of a bracket sequence, each used", 1 << 12, [](uint64_t i) { vector<std::unique_ptr<Sess>> d; for (int k = 0; k < 12; k++) { if (i >> k & 1) { d.emplace_back(new Sess); d.back()->quiet = true; d.back()->ok("CREATE TABLE T (v VARCHAR(5));"); d.back()->ok("INSERT INTO T VALUES ('a'), (NULL);"); op("open"); } else if (!d.empty()) { size_t w = (size_t)k % d.size(); Got g = d[w]->exec("SELECT v FROM T;"); if (g.rows.size() != 2) fail("a database lost its rows"); d[w]->close(); d.erase(d.begin() + w); op("close %zu", w); } if (d.empty() && (vf_live || vf_live_re)) fail("allocations are held without a database"); } for (auto &x : d) x->close(); d.clear(); if (vf_live || vf_live_re) fail("allocations are held after the last database was closed"); history(); });
	tx::add_texts(feed, th);
	return mc::run(argc, argv, {"C12", "model_checking", nullptr, {"memory held is counted in allocations made through malloc, calloc, realloc, strdup and asprintf by the implementation and its generated parser"}});
}
