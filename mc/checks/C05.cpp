// C05: GROUP BY and COUNT(*) against a partition of the rows
#include "../seq.hpp"
#include "../attr.hpp"
#include "../big.hpp"
#include "../tz.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
static From f(const string &t, int join = 0, CP on = nullptr, const string &alias = "") { From x; x.table = t; x.join = join; x.on = on; x.alias = alias; return x; }
static Sel G(const vector<string> &items, int count_at, const vector<string> &group, CP w = nullptr, const string &q = "") { Sel s; for (auto &i : items) s.items.push_back(F(i, q)); s.count = count_at >= 0; s.count_at = count_at; for (auto &g : group) s.group.push_back(F(g, q)); s.from = {f("T")}; s.where = w; return s; }
// every select list (subset and order of the grouping columns, COUNT(*) anywhere or absent) for every order of grouping columns
static vector<Sel> lists(const vector<string> &cols, CP w, const string &q = "") {
	vector<Sel> r; size_t n = cols.size();
	for (unsigned gm = 1; gm < 1u << n; gm++) {
		vector<string> g; for (size_t i = 0; i < n; i++) if (gm >> i & 1) g.push_back(cols[i]);
		std::sort(g.begin(), g.end());
		do { for (unsigned sm = 0; sm < 1u << g.size(); sm++) { vector<string> it; for (size_t i = 0; i < g.size(); i++) if (sm >> i & 1) it.push_back(g[i]); std::sort(it.begin(), it.end());
			do for (int c = -1; c <= (int)it.size(); c++) if (c >= 0 || !it.empty()) r.push_back(G(it, c, g, w, q)); while (std::next_permutation(it.begin(), it.end())); } } while (std::next_permutation(g.begin(), g.end()));
	}
	return r;
}
static vector<Sel> counts(CP w) { Sel a = G({}, 0, {}, w); return {a}; }
static vector<Sel> Q;
static void run_all(const vector<Tab> &tabs, const vector<Sel> &q) { Sess s; for (auto &t : tabs) s.fill(t); for (auto &x : q) { size_t m = mark(); s.select(x); for (auto &t : tabs) s.check(t.name); history(); rewind_to(m); } s.close(); }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	vector<CP> ws = {nullptr, isnull(F("x")), cmp(EQ, F("y"), L(Int(0))), cmp(NE, F("x"), L(Int(7)))};
	for (auto &w : ws) { if (!th && &w == &ws[2]) continue; auto l = lists({"x", "y"}, w); Q.insert(Q.end(), l.begin(), l.end()); auto c = counts(w); Q.insert(Q.end(), c.begin(), c.end()); }
	{ auto l = lists({"x", "y"}, nullptr, "T"); Q.insert(Q.end(), l.begin(), l.end()); }
	int k = th ? 5 : 4; uint64_t n = 0, p = 1; for (int i = 0; i <= k; i++, p *= 6) n += p;
	add("contents", fmt("every table of up to %d rows over (NULL,0,1)x(NULL,0), under %zu grouping queries", k, Q.size()), n, [](uint64_t i) {
		int len = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 6; len++; } Radix r(i); vector<Val> d = {Nul(), Int(0), Int(1)};
		Tab t; t.name = "T"; t.cols = {C("x"), C("z", VT_VARCHAR), C("y")}; for (int j = 0; j < len; j++) { int a = (int)r.take(3), b = (int)r.take(2); t.rows.push_back({d[a], j % 2 ? Str("z") : Nul(VT_VARCHAR), d[b]}); }
		run_all({t}, Q); });
	add("types", "grouping by two columns of every pair of types, on every pair of values and duplicates", 36, [](uint64_t i) {
		int a = tys[i / 6], b = tys[i % 6]; Tab t; t.name = "T"; t.cols = {C("id"), C("x", a), C("y", b)}; auto da = domain(a), db = domain(b); int id = 0;
		for (int rep = 0; rep < 2; rep++) for (size_t u = 0; u < da.size(); u++) for (size_t v = rep ? u % 2 : 0; v < db.size(); v += 1 + rep) t.rows.push_back({Int(id++), da[u], db[v]});
		vector<Sel> q = lists({"x", "y"}, nullptr); auto w = lists({"x", "y"}, cmp(GT, F("id"), L(Int(20)))); q.insert(q.end(), w.begin(), w.end()); q.push_back(G({}, 0, {}, isnull(F("x")))); run_all({t}, q); });
	add("three", "grouping by every list of up to three columns", 27, [](uint64_t i) {
		Radix r(i); Tab t; t.name = "T"; t.cols = {C("a", tys[r.take(3)]), C("b", tys[r.take(3)]), C("c", tys[r.take(3)])};
		vector<Val> d[3]; for (int k = 0; k < 3; k++) { auto x = domain(t.cols[k].ty); d[k] = {x[0], x[1], x[2]}; }
		for (int j = 0; j < 40; j++) t.rows.push_back({d[0][j % 3], d[1][j / 3 % 3], d[2][j * 7 % 11 % 3]});
		run_all({t}, lists({"a", "b", "c"}, nullptr)); });
	add("pages", "every number of rows up to four pages, every number of groups, with and without deleted rows", th ? 240 : 72, [](uint64_t i) {
		Radix r(i); int groups = (int[]){1, 2, 3, 5, 1000, 4}[r.take(6)]; bool holes = r.take(2); int n = (int)r.take(20) * (thorough() ? 2 : 5);
		Tab t = wide("T", 60); for (int j = 0; j < n; j++) { t.rows.push_back(wide_row(t, j)); t.rows.back()[1] = j % 7 == 6 ? Nul() : Int(j % groups); t.rows.back()[3] = j % 5 == 4 ? Nul(VT_VARCHAR) : Str(fmt("g%d", j % groups)); }
		Sess s; s.create(t); for (int j = 0; j < n; j += 9) s.insert("T", vector<Row>(t.rows.begin() + j, t.rows.begin() + std::min(n, j + 9)));
		if (holes) { s.del("T", in(F("id"), {Int(0), Int(2), Int(9), Int(n - 1)})); }
		for (auto &q : {G({"c0"}, 1, {"c0"}), G({"c2"}, 0, {"c2"}), G({"c2", "c0"}, 1, {"c0", "c2"}), G({"id"}, 0, {"id"}), G({}, 0, {}), G({}, 0, {}, cmp(LT, F("id"), L(Int(n / 2)))), G({}, 0, {"c0"}, cmp(GE, F("id"), L(Int(n / 3))))}) { size_t m = mark(); s.select(q); s.check("T"); history(); rewind_to(m); }
		s.close(); });
	add("joins", "grouping and counting over joins of two tables of up to three rows", 40 * 13, [](uint64_t i) {
		Radix r(i); vector<Val> d = {Nul(), Int(1), Int(2)}; auto content = [&](uint64_t i, const string &n) { Tab t; t.name = n; t.cols = {C("k"), C(n == "A" ? "g" : "h", VT_VARCHAR)}; int len = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 3; len++; } Radix q(i); for (int j = 0; j < len; j++) t.rows.push_back({d[q.take(3)], j % 3 == 2 ? Nul(VT_VARCHAR) : Str(j ? "u" : "v")}); return t; };
		Tab a = content(r.take(40), "A"), b = content(r.take(13), "B"); vector<Sel> q;
		for (int form = 0; form < 3; form++) for (int g = 0; g < 6; g++) { CP on = cmp(form == 2 ? NE : EQ, F("k", "A"), F("k", "B")); Sel s; s.from = {f("A"), form == 1 ? f("B") : f("B", 1, on)}; if (form == 1) s.where = on; s.count = true;
			switch (g) { case 0: s.group = {F("k", "A")}; s.items = {F("k", "A")}; break; case 1: s.group = {F("g")}; s.items = {F("g")}; s.count_at = 0; break; case 2: s.group = {F("h"), F("k", "B")}; s.items = {F("k", "B"), F("h")}; break; case 3: s.group = {F("h")}; break; case 4: break; default: s.where = s.where ? bin(Cond::AND, s.where, isnull(F("g"), true)) : isnull(F("g"), true); } q.push_back(s); }
		run_all({a, b}, q); });
	nm::add_names(nm::GRP);
	seq::add_seq(nm::GRP);
	at::add_attr(nm::GRP);
	big::add_big(nm::GRP);
	tz::add_tz(nm::GRP);
	return mc::run(argc, argv, {"C05", "model_checking", nullptr, {"a grouping column is spelled in GROUP BY as in the select list"}});
}
