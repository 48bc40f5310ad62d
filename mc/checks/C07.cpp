// C07: the result cursor: every row once, then the end, for every row width and number of rows
#include "../dom.hpp"
using namespace sq; using namespace mc;
static Tab shape(int ncols, bool text) { Tab t; t.name = "T"; t.cols = {C("id")}; for (int i = 1; i < ncols; i++) t.cols.push_back(C(fmt("c%d", i), text && i % 2 ? VT_VARCHAR : VT_INTEGER)); return t; }
static void fill(Sess &s, const Tab &t, int n) { // ids 1..n; only some columns are given
	s.create(t); for (int j = 0; j < n; j += 64) { vector<Row> rows; for (int k = j; k < std::min(n, j + 64); k++) rows.push_back(t.cols.size() > 2 ? Row{Int(k + 1), t.cols[1].ty == VT_VARCHAR ? Str(fmt("v%d", k + 1)) : Int(-k)} : Row{Int(k + 1)}); s.insert("T", rows, t.cols.size() > 2 ? vector<string>{"id", "c1"} : vector<string>{"id"}); }
}
// step by hand: the values read, the order and the end
static void cursor(Sess &s, const string &sql, const vector<int64_t> &want) {
	ops(sql); vres r; vdb_exec(s.db, sql.c_str(), &r); if (r.status != VS_ROWS) fail(fmt("status %d (%s) instead of a result", r.status, r.msg));
	int idc = -1; for (int i = 0; i < vt_ncols(r.table); i++) { vcol c; vt_col(r.table, i, &c); if (!strcmp(c.name, "T.id") || !strcmp(c.name, "COUNT(*)")) idc = i; } if (idc < 0) fail("the result has no id column");
	vit it; memset(&it, 0, sizeof it); vector<int64_t> got; int k;
	while ((k = vres_step(&r, &it)) == 1) { got.push_back(vres_int(&r, idc)); if (got.size() > want.size() + 3) fail(fmt("the cursor yields more than the %zu rows of the result", want.size())); }
	if (k) fail("query_cur_step reports an error"); 
	for (int e = 0; e < 3; e++) if ((k = vres_step(&r, &it))) fail(fmt("query_cur_step answers %d after the end", k));
	vres_free(&r); vector<int64_t> w = want; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end());
	if (got != w) { string a; for (size_t i = 0; i < got.size() && i < 20; i++) a += fmt(" %lld", (long long)got[i]); fail(fmt("the cursor yields %zu rows instead of %zu:%s", got.size(), w.size(), a.c_str())); }
	outcome(mix(got.size(), want.size() ? w.back() : 0)); history();
}
static vector<int64_t> ids(int n) { vector<int64_t> v; for (int i = 1; i <= n; i++) v.push_back(i); return v; }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	static const int few[] = {1, 2, 3, 20, 60, 61, 62, 63, 100, 127, 128}; static const int step = th ? 1 : 4;
	add("counts", "every number of rows up to three pages, for eleven row widths", 11 * 2, [](uint64_t i) {
		Radix r(i); int nc = few[r.take(11)]; bool text = r.take(2); Tab t = shape(nc, text); int per; { Sess s; s.create(t); void *T = vdb_table(s.db, "T"); per = (int)(vt_page_size() / vt_row_size(T)); }
		for (int n = 0; n <= 3 * per + 2; n++) { if (n > 4 && per > 40 && n % step && n % per > 1 && n % per < per - 1) continue; size_t m = mark(); Sess s; fill(s, t, n);
			cursor(s, "SELECT * FROM T;", ids(n)); cursor(s, "SELECT id FROM T;", ids(n)); if (nc < 128) cursor(s, "SELECT COUNT(*) FROM T;", {n}); s.check("T"); s.close(); rewind_to(m); } }, 1);
	add("widths", "every row width (1 to 128 columns), every number of rows around one, two and three full pages", 128, [](uint64_t i) {
		Tab t = shape((int)i + 1, false); int per; { Sess s; s.create(t); per = (int)(vt_page_size() / vt_row_size(vdb_table(s.db, "T"))); }
		for (int b = 0; b <= (thorough() ? 3 : 2); b++) for (int n = std::max(0, b * per - 2); n <= b * per + 2; n++) { size_t m = mark(); Sess s; fill(s, t, n); cursor(s, "SELECT * FROM T;", ids(n)); s.check("T"); s.close(); rewind_to(m); } }, 1);
	add("masks", "every subset of the rows of three pages matched by WHERE, and every subset deleted before", 512, [](uint64_t i) {
		Tab t = shape(127, true); Sess s; fill(s, t, 9); vector<Val> in_; vector<int64_t> w, rest; for (int j = 0; j < 9; j++) (i >> j & 1 ? (in_.push_back(Int(j + 1)), w) : rest).push_back(j + 1);
		CP c = in_.empty() ? cmp(LT, F("id"), L(Int(0))) : in(F("id"), in_); cursor(s, "SELECT * FROM T WHERE " + str(*c) + ";", w); cursor(s, "SELECT c1, id FROM T WHERE " + str(*c) + ";", w);
		s.del("T", c); cursor(s, "SELECT * FROM T;", rest); cursor(s, "SELECT id FROM T GROUP BY id;", rest); s.close(); });
	add("products", "results wider than their tables: every number of rows of two tables joined without a condition", th ? 26 * 26 : 13 * 13, [](uint64_t i) {
		int q = thorough() ? 26 : 13; int a = (int)(i % q), b = (int)(i / q); Tab t = shape(40, false), u = shape(30, true); u.name = "U"; u.cols[0].name = "uid"; Sess s; fill(s, t, a); s.create(u); vector<Row> rows; for (int j = 0; j < b; j++) rows.push_back({Int(j)}); if (b) s.insert("U", rows, {"uid"});
		vector<int64_t> w; for (int k = 0; k < b; k++) for (int j = 1; j <= a; j++) w.push_back(j); cursor(s, "SELECT * FROM T, U;", w); cursor(s, "SELECT T.id FROM U, T;", w); s.close(); });
	add("two cursors", "two results open at the same time, stepped in every order of six steps", 64, [](uint64_t i) {
		Tab t = shape(127, true); Sess s; fill(s, t, 4); const char *q[2] = {"SELECT * FROM T;", "SELECT id, c1 FROM T WHERE id > 1;"}; vres r[2]; vit it[2]; memset(it, 0, sizeof it); int got[2] = {0, 0}, want[2] = {4, 3};
		for (int k = 0; k < 2; k++) { ops(q[k]); vdb_exec(s.db, q[k], &r[k]); if (r[k].status != VS_ROWS) fail("no result"); }
		for (int st = 0; st < 6; st++) { int k = i >> st & 1; if (vres_step(&r[k], &it[k]) == 1) got[k]++; }
		for (int k = 0; k < 2; k++) { while (vres_step(&r[k], &it[k]) == 1) got[k]++; if (got[k] != want[k]) fail(fmt("result %d yields %d rows instead of %d", k, got[k], want[k])); }
		s.del("T", nullptr); for (int k = 0; k < 2; k++) { vres_free(&r[k]); } s.close(); history(); });
	add("mixed", "every sequence of up to four column types: every numeric or truth value read through the cursor, in every column", 6 + 36 + 216 + (th ? 1296 : 0), [](uint64_t i) {
		static const int tys[] = {VT_INTEGER, VT_TINYINT, VT_VARCHAR, VT_DOUBLE, VT_DATE, VT_DATETIME}; int n = 1; uint64_t p = 6; while (i >= p) { i -= p; p *= 6; n++; } Radix r(i); Tab t; t.name = "T"; for (int c = 0; c < n; c++) t.cols.push_back(C(fmt("c%d", c), tys[r.take(6)], 5 + c));
		auto val = [&](int c, int k) { switch (t.cols[c].ty) { case VT_INTEGER: return Int(c * 1000003LL + k * 4294967297LL); case VT_TINYINT: return Tiny((c + k) & 1); case VT_VARCHAR: return Str("abc"); case VT_DOUBLE: return Dbl(-1.0 / (c + k + 1)); case VT_DATE: return Date("2024-02-29"); default: return DTime("2024-02-29 12:34:56"); } };
		for (int k = 0; k < 3; k++) { Row x; for (int c = 0; c < n; c++) x.push_back(val(c, k)); t.rows.push_back(x); }
		Sess s; s.fill(t); vector<vector<int>> L; { vector<int> a(n); for (int c = 0; c < n; c++) a[c] = c; do L.push_back(a); while (std::next_permutation(a.begin(), a.end())); }
		for (auto &l : L) { string q = "SELECT "; for (int c : l) q += (c == l[0] ? "" : ", ") + t.cols[c].name; q += " FROM T;"; ops(q); vres x; vdb_exec(s.db, q.c_str(), &x); if (x.status != VS_ROWS) fail("no result"); vit it; memset(&it, 0, sizeof it); std::multiset<vector<int64_t>> got, want; 
			while (vres_step(&x, &it) == 1) { vector<int64_t> v; for (int k = 0; k < n; k++) { int y = t.cols[l[k]].ty; if (y == VT_INTEGER || y == VT_TINYINT) v.push_back(vres_int(&x, k)); } got.insert(v); if (got.size() > 9) fail("too many rows"); }
			for (auto &row : t.rows) { vector<int64_t> v; for (int k = 0; k < n; k++) { int y = t.cols[l[k]].ty; if (y == VT_INTEGER || y == VT_TINYINT) v.push_back(row[l[k]].i); } want.insert(v); }
			vres_free(&x); if (got != want) { string a; for (auto &v : got) { for (auto y : v) a += fmt(" %lld", (long long)y); a += " |"; } fail("query_column_int64 reads other values than the rows hold:" + a); } history(); }
		s.close(); });
	return mc::run(argc, argv, {"C07", "model_checking", nullptr, {"COUNT(*) over a table of 128 columns is not asked for (a result has at most 128 columns, COUNT included)"}});
}
