// C08: every literal reads back as the value that was written
#include "../seq.hpp"
#include "../attr.hpp"
#include "../big.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
struct Lit { string text; string want; }; // spelling and canonical value
static vector<Lit> lits(int ty, bool th) {
	vector<Lit> r; auto add_ = [&](const Val &v) { r.push_back({lit(v), canon(v)}); };
	r.push_back({"NULL", "NULL"});
	if (ty == VT_INTEGER) { for (int b = 0; b < 63; b++) for (int k = -1; k <= 1; k++) { int64_t v = (1LL << b) + k; add_(Int(v)); add_(Int(-v)); } add_(Int(INT64_MAX)); add_(Int(INT64_MIN)); for (int i = -300; i < 300; i++) add_(Int(i)); r.push_back({"007", "7"}); r.push_back({"-0", "0"}); r.push_back({"- 5", "-5"}); r.push_back({"(12)", "12"}); }
	if (ty == VT_TINYINT) { for (auto s : {"TRUE", "true", "True"}) r.push_back({s, "1"}); for (auto s : {"FALSE", "false", "fAlSe"}) r.push_back({s, "0"}); }
	if (ty == VT_DOUBLE) {
		for (int e = -1074; e <= 1023; e += th ? 1 : 13) { double v = ldexp(1, e); for (double x : {v, -v, std::nextafter(v, 1e308), std::nextafter(v, 0) * 3}) if (std::isfinite(x)) add_(Dbl(x)); }
		for (double v : {0.1, 0.2, 0.1 + 0.2, 1.0 / 3, 2.0 / 3, 1e15 + 0.3, 123456.789012345, 1234567.5, 3.14159265358979, 1.7976931348623157e308, 4.9406564584124654e-324, 9007199254740991.0, 9007199254740993.0, 1e22, 1e23}) { add_(Dbl(v)); add_(Dbl(-v)); }
		for (auto s : {"1.", "-1.", ".5", "-.5", "1e3", "1E3", "1.5e-3", "2.E2", ".5e1", "-1e+2", "00.50", "0.0", "-0.0", "1234567890.12345678901234567890"}) r.push_back({s, canon(Dbl(atof(s)))});
		for (int i = 0; i < 1000; i++) r.push_back({fmt("%d.%03d", i % 7, i), canon(Dbl(atof(fmt("%d.%03d", i % 7, i).c_str())))});
	}
	if (ty == VT_DATE) { int step = th ? 1 : 3; static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int n = 0; for (int y = 1890; y <= 2110; y += step) for (int m = 1; m <= 12; m++) for (int d = 1; d <= ml[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0)); d++) if (th || n++ % 5 == 0 || m <= 3) { if (!th && y != 2000 && y != 1971 && (d > 2 && d < 27)) continue; add_(Date(fmt("%04d-%02d-%02d", y, m, d))); } for (int y : {1896, 1900, 1904, 1968, 1972, 2000, 2024, 2100, 2104}) { if (y % 4 == 0 && (y % 100 || y % 400 == 0)) add_(Date(fmt("%04d-02-29", y))); add_(Date(fmt("%04d-02-28", y))); add_(Date(fmt("%04d-03-01", y))); } }
	if (ty == VT_DATETIME) { for (auto d : {"1969-12-31", "1970-01-01", "2024-02-29", "1900-01-01", "2038-01-19", "2099-12-31"}) { for (int h = 0; h < 24; h++) add_(DTime(fmt("%s %02d:59:00", d, h))); for (int m = 0; m < 60; m++) add_(DTime(fmt("%s 12:%02d:01", d, m))); for (int s = 0; s < 60; s++) add_(DTime(fmt("%s 23:59:%02d", d, s))); } }
	if (ty == VT_VARCHAR) {
		auto q2 = [](const string &s) { string r = "\""; for (char c : s) { r += c; if (c == '"') r += c; } return r + "\""; };
		vector<string> s; for (int b = 1; b < 256; b++) if (b != '\n' && b != '\\') { s.push_back(string(1, (char)b)); s.push_back("a" + string(1, (char)b)); s.push_back(string(1, (char)b) + "z"); }
		const char al[] = {'a', '\'', '"', '%', ' ', ';', '-', '#', '0', '*', '/', '(', ',', '`', '.'}; for (char a : al) for (char b : al) { s.push_back({a, b}); for (char c : al) s.push_back({a, b, c}); }
		for (auto x : {"--", "-- x", "/* x */", "NULL", "TRUE", "12", "1.5", "2024-01-01", "SELECT", "%s%d%n", "%.17g", "STMT", "a\tb", "a\rb"}) s.push_back(x);
		for (auto &x : s) { r.push_back({quote(x), "'" + x + "'"}); r.push_back({q2(x), "'" + x + "'"}); }
		for (auto x : {"\\n", "\\\\", "a\\b", "\\t\\t"}) r.push_back({"'" + string(x) + "'", "'" + string(x) + "'"});
		for (int n = 0; n < 300; n++) { string x; for (int i = 0; i < n; i++) x += (char)('a' + i % 26); r.push_back({quote(x), "'" + x + "'"}); }
	}
	return r;
}
static vector<vector<Lit>> LL; static vector<std::pair<int, size_t>> blocks; static const size_t PER = 40;
static void want(Sess &s, const string &t, vector<vector<string>> w) { auto g = s.dump(t); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w) { for (size_t i = 0; i < std::min(g.size(), w.size()); i++) if (g[i] != w[i]) fail("a row holds " + Sess::join(g[i]) + " instead of " + Sess::join(w[i])); fail(fmt("%zu rows instead of %zu", g.size(), w.size())); } state(hash_str(show(w, 1000))); }
static void seqs(int n, vector<vector<int>> &out, vector<int> cur = {}) { if (!cur.empty()) out.push_back(cur); for (int i = 0; i < n; i++) if (std::find(cur.begin(), cur.end(), i) == cur.end()) { auto c = cur; c.push_back(i); seqs(n, out, c); } }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	for (int t = 0; t < 6; t++) { LL.push_back(lits(tys[t], th)); for (size_t i = 0; i < LL[t].size(); i += PER) blocks.push_back({t, i}); }
	size_t nl = 0; for (auto &l : LL) nl += l.size();
	add("literals", fmt("each of %zu literals of all types, inserted alone, in one statement, before and after other columns, and assigned by UPDATE; read from the table and from SELECT", nl), blocks.size(), [](uint64_t i) {
		int t = blocks[i].first; auto &L = LL[t]; size_t a = blocks[i].second, b = std::min(L.size(), a + PER); int ty = tys[t]; Col x = C("x", ty, 400); vector<vector<string>> w;
		size_t m = mark();
		{ Sess s; s.ok("CREATE TABLE T (id INT, x " + tyname(x) + ", z VARCHAR(4));"); for (size_t k = a; k < b; k++) { size_t m2 = mark(); s.ok(fmt("INSERT INTO T VALUES (%zu, %s, 'end');", k, L[k].text.c_str()), 1); w.push_back({fmt("%zu", k), L[k].want, "'end'"}); want(s, "T", w); rewind_to(m2); }
		  Got g = s.exec("SELECT x, id, z FROM T;"); if (g.status != VS_ROWS || g.rows.size() != w.size()) fail("SELECT of the rows failed"); for (auto &r : g.rows) { size_t k = strtoul(r[1].c_str(), 0, 10); if (r[0] != L[k].want || r[2] != "'end'") fail("SELECT returns " + r[0] + " instead of " + L[k].want); } s.close(); history(); }
		rewind_to(m);
		{ Sess s; s.ok("CREATE TABLE T (v VARCHAR(9), x " + tyname(x) + ");"); string q = "INSERT INTO T (x, v) VALUES "; w.clear(); for (size_t k = a; k < b; k++) { q += fmt("%s(%s, 'k%zu')", k > a ? ", " : "", L[k].text.c_str(), k); w.push_back({fmt("'k%zu'", k), L[k].want}); } s.ok(q + ";", (int64_t)(b - a)); want(s, "T", w); s.close(); history(); }
		rewind_to(m);
		{ Sess s; s.ok("CREATE TABLE T (x " + tyname(x) + ", y " + tyname(x) + ", id INT);"); string f = ty == VT_VARCHAR ? "'q'" : ty == VT_INTEGER ? "5" : ty == VT_DOUBLE ? "5.5" : ty == VT_TINYINT ? "TRUE" : ty == VT_DATE ? "'2020-02-02'" : "'2020-02-02 02:02:02'"; s.ok("INSERT INTO T VALUES (" + f + ", " + f + ", 1), (NULL, " + f + ", 2), (" + f + ", NULL, 3);");
		  auto base = s.dump("T"); for (size_t k = a; k < b; k++) { size_t m2 = mark(); if (L[k].text[0] == '(' || !L[k].text.compare(0, 2, "- ")) continue; s.ok("UPDATE T SET y = " + L[k].text + ";", 3); w = base; for (auto &r : w) r[1] = L[k].want; want(s, "T", w); rewind_to(m2); } s.close(); history(); }
		rewind_to(m); });
	add("lists", "every column list (every subset in every order) of tables of five columns of mixed types, inserting one to three rows with every literal column order", 6 * 5, [](uint64_t i) {
		Radix r(i); int rot = (int)r.take(6); int extra = (int)r.take(5); Tab t; t.name = "T"; for (int k = 0; k < 5; k++) t.cols.push_back(C(fmt("c%d", k), tys[(rot + k * (1 + extra)) % 6], 20)); vector<vector<int>> L; seqs(5, L); Sess s; s.create(t); int n = 0; s.quiet = false;
		for (auto &l : L) { size_t m = mark(); vector<string> cols; vector<Row> rows((size_t)(n % 3 + 1)); for (int c : l) cols.push_back(t.cols[c].name); for (auto &row : rows) { n++; for (int c : l) { auto d = domain(t.cols[c].ty); row.push_back(d[(n + c * 3) % d.size()]); } } s.insert("T", rows, cols); if (n % 40 == 0) { s.check("T"); s.del("T", nullptr); } rewind_to(m); }
		s.check("T"); s.close(); history(); }, 1);
	add("bulk", "INSERT of every number of rows up to 300 in one statement, into narrow and wide tables", th ? 300 : 100, [](uint64_t i) { int n = (int)i * (thorough() ? 1 : 3) + 1; for (int w = 0; w < 2; w++) { size_t m = mark(); Sess s; Tab t = w ? wide("T", 12) : wide("T", 3); s.create(t); vector<Row> rows; for (int k = 0; k < n; k++) rows.push_back(wide_row(t, k)); s.insert("T", rows); s.check("T"); s.select(star("T")); s.close(); history(); rewind_to(m); } });
	add("lengths", "every text length up to the declared one, for every declared length up to 40, and long ones", 44, [](uint64_t i) {
		int p = i < 40 ? (int)i + 1 : (int[]){255, 256, 4096, 9999}[i - 40]; Sess s; Tab t; t.name = "T"; t.cols = {C("id"), C("a", VT_VARCHAR, p), C("b", VT_VARCHAR, p), C("n")}; s.create(t);
		for (int len = 0; len < p; len += p > 40 && len < p - 3 && len > 2 ? p / 13 : 1) { string x; for (int k = 0; k < len; k++) x += (char)(33 + (k * 7 + len) % 90); for (auto &c : x) if (c == '\\' || c == '\'') c = 'Q'; size_t m = mark(); s.insert("T", {{Int(len), Str(x), len % 3 ? Str(x) : Nul(VT_VARCHAR), Int(-len)}}); s.update("T", {{"b", Str(x)}}, cmp(EQ, F("n"), L(Int(-len)))); s.check("T"); rewind_to(m); }
		s.select(star("T")); s.err("INSERT INTO T VALUES (0, '" + string(p, 'x') + "', NULL, 0);"); s.check("T"); s.close(); history(); });
	nm::add_names(nm::INS);
	seq::add_seq(nm::INS);
	at::add_attr(nm::INS);
	big::add_big(nm::INS);
	return mc::run(argc, argv, {"C08", "model_checking", nullptr, {"a backslash and the character after it are stored as they are written", "a VARCHAR(n) column holds texts of up to n-1 bytes"}});
}
