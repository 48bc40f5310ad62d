// C03: DELETE and UPDATE against a direct reading of the condition and the assignments
#include "../seq.hpp"
#include "../attr.hpp"
#include "../big.hpp"
#include "../tz.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
static Tab atom_table(int ty) { Tab t; t.name = "T"; t.cols = {C("id"), C("n", VT_VARCHAR), C("x", ty), C("y", ty), C("z", VT_DOUBLE)}; int64_t id = 0; auto d = domain(ty); for (int k = 0; k < 2; k++) for (size_t i = 0; i < d.size(); i++) t.rows.push_back({Int(++id), id % 3 ? Str("n") : Nul(VT_VARCHAR), d[i], d[(i + k) % d.size()], Dbl(id)}); return t; }
static Tab pair_table(int ty) { Tab t; t.name = "T"; t.cols = {C("x", ty), C("id"), C("y", ty)}; int64_t id = 0; auto d = domain(ty, true); for (auto &a : d) for (auto &b : d) t.rows.push_back({a, Int(++id), b}); return t; }
static void both(const Tab &t, const CP &c, const Asgn &a, int style = 0) {
	Style st; st.parens = style; size_t m = mark();
	{ Sess s; s.fill(t); s.del("T", c, st); s.select(star("T")); s.close(); } history(); rewind_to(m);
	{ Sess s; s.fill(t); s.update("T", a, c, st); s.select(star("T")); s.close(); } history(); rewind_to(m);
}
static Tab mixed() { Tab t; t.name = "T"; t.cols = {C("id"), C("i"), C("s", VT_VARCHAR, 20), C("d", VT_DOUBLE), C("b", VT_TINYINT), C("t", VT_DATE), C("m", VT_DATETIME)};
	t.rows = {{Int(1), Int(5), Str("five"), Dbl(5.5), Tiny(true), Date("2024-05-05"), DTime("2024-05-05 05:05:05")}, {Int(2), Nul(), Nul(VT_VARCHAR), Nul(VT_DOUBLE), Nul(VT_TINYINT), Nul(VT_DATE), Nul(VT_DATETIME)}, {Int(3), Int(-7), Str(""), Dbl(-7), Tiny(false), Date("1960-07-07"), DTime("1960-07-07 07:07:07")}, {Int(4), Int(1), Str("one"), Nul(VT_DOUBLE), Tiny(true), Nul(VT_DATE), DTime("2001-01-01 01:01:01")}};
	return t; }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	static vector<std::pair<int, vector<CP>>> A;
	for (int ty : tys) { auto all = atoms(F("x"), ty, th ? 2 : 1); if (!th) for (auto &c : atoms(F("x"), ty, 2, true)) if (c->k == Cond::IN) all.push_back(c); for (size_t i = 0; i < all.size(); i += 25) A.push_back({ty, vector<CP>(all.begin() + i, all.begin() + std::min(all.size(), i + 25))}); }
	add("atoms", "DELETE and UPDATE with every single condition over one column (types, operators, literals, either side, NULL, IN lists)", A.size(), [](uint64_t i) {
		Tab t = atom_table(A[i].first); for (auto &c : A[i].second) both(t, c, {{"n", Str("hit")}}); });
	add("columns", "DELETE and UPDATE with every comparison of two columns of one type", 6, [](uint64_t i) {
		Tab t = pair_table(tys[i]); for (auto &c : pairs(F("x"), F("y"), tys[i])) { both(t, c, {{"id", Int(-1)}}); both(t, c, {{"x", domain(tys[i])[1]}}); } });
	// assignments
	static vector<Asgn> G; { Tab t = mixed(); vector<int> cols = {1, 2, 3, 4, 5, 6};
		for (int c : cols) for (auto &v : domain(t.cols[c].ty)) G.push_back({{t.cols[c].name, v}});
		for (int c : cols) for (int e : cols) if (c != e) for (auto &v : domain(t.cols[c].ty, true)) for (auto &w : domain(t.cols[e].ty, true)) if (th || (v.null || w.null || (&v == &w) || v.s == "a" || w.s == "a")) G.push_back({{t.cols[c].name, v}, {t.cols[e].name, w}});
		std::sort(cols.begin(), cols.end()); int k = 0; do { Asgn a; for (int c : cols) { auto d = domain(t.cols[c].ty); a.push_back({t.cols[c].name, d[(k / 3 + c * k) % d.size()]}); } if (th || k % 3 == 0) G.push_back(a); k++; } while (std::next_permutation(cols.begin(), cols.end())); }
	add("assignments", "UPDATE with every assignment of one column, pairs of columns and orders of all columns, on every subset of the rows", (G.size() + 7) / 8, [](uint64_t i) {
		for (size_t g = i * 8; g < std::min(G.size(), (i + 1) * 8); g++) for (int sub = 0; sub < 6; sub++) {
			size_t m = mark(); Sess s; s.fill(mixed()); static const int masks[] = {15, 1, 2, 4, 8, 6}; vector<Val> ids; for (int j = 0; j < 4; j++) if (masks[sub] >> j & 1) ids.push_back(Int(j + 1));
			s.update("T", G[g], sub ? in(F("id"), ids) : nullptr); s.select(star("T")); s.update("T", {{"s", Str("again")}}, isnull(F("d"))); s.close(); history(); rewind_to(m);
		} });
	int maxl = th ? 4 : 3;
	for (int n = 2; n <= maxl; n++) { uint64_t total = trees(n, 4), per = 32;
		add(fmt("trees%d", n), fmt("DELETE and UPDATE with every AND/OR/XOR tree of %d leaves", n), (total + per - 1) / per, [n, total, per](uint64_t i) {
			Tab t = T3(); auto at = tree_atoms(); for (uint64_t k = i * per; k < std::min(total, (i + 1) * per); k++) for (int st = 0; st < (n == 2 ? 3 : 1); st++) both(t, tree(n, at, k), {{"q", Int(9)}}, st); }); }
	static vector<CP> cc = {cmp(EQ, F("x"), L(Int(1))), cmp(NE, F("x"), L(Int(0))), cmp(LT, F("x"), F("y")), isnull(F("y")), in(F("x"), {Int(0), Int(1)}), in(F("y"), {Int(0)}, true), nullptr};
	int k = th ? 4 : 3; uint64_t n = 0, p = 1; for (int i = 0; i <= k; i++, p *= 9) n += p;
	add("contents", fmt("every table of up to %d rows over {NULL,0,1}, each condition used by DELETE then UPDATE and by UPDATE then DELETE, then INSERT", k), n, [](uint64_t i) {
		int len = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 9; len++; } Radix r(i); vector<Row> rows; vector<Val> d = {Nul(), Int(0), Int(1)};
		for (int j = 0; j < len; j++) { int a = (int)r.take(3), b = (int)r.take(3); rows.push_back({Int(j), d[a], Nul(VT_VARCHAR), d[b]}); }
		for (size_t a = 0; a < cc.size(); a++) for (int ord = 0; ord < 2; ord++) {
			size_t m = mark(); Sess s; Tab t; t.name = "T"; t.cols = {C("id"), C("x"), C("s", VT_VARCHAR), C("y")}; t.rows = rows; s.fill(t);
			CP c2 = cc[(a + i) % cc.size()]; Asgn u = {{"y", (a + i) % 2 ? Int(1) : Nul()}, {"s", Str("u")}};
			if (ord) { s.update("T", u, cc[a]); s.del("T", c2); } else { s.del("T", cc[a]); s.update("T", u, c2); }
			s.insert("T", {{Int(99), Int(1), Str("new"), Nul()}}); s.check("T"); s.update("T", {{"x", Nul()}}, cc[(a + 1) % cc.size()]); s.select(star("T")); s.close(); history(); rewind_to(m);
		} });
	add("pages", "tables of up to three pages: every single row and every half deleted and updated", th ? 120 : 30, [](uint64_t i) {
		Tab t = wide("T", i & 1 ? 60 : 126); i >>= 1; int n = (int)i * (thorough() ? 1 : 2) + 1; for (int j = 0; j < n; j++) t.rows.push_back(wide_row(t, j));
		auto put = [&](Sess &s) { s.create(t); for (int j = 0; j < n; j += 7) s.insert("T", vector<Row>(t.rows.begin() + j, t.rows.begin() + std::min(n, j + 7))); };
		{ Sess s; put(s); for (int j = 0; j < n; j++) { s.update("T", {{"c2", Str(fmt("u%d", j))}, {"c0", j % 2 ? Int(j) : Nul()}}, cmp(EQ, F("id"), L(Int(j)))); } s.update("T", {{"c1", Dbl(0.25)}}, cmp(GE, F("id"), L(Int(n / 2)))); s.close(); }
		{ Sess s; put(s); for (int j = 0; j < n; j++) s.del("T", cmp(EQ, F("id"), L(Int(j * 5 % n)))); s.insert("T", {t.rows[0]}); s.check("T"); s.close(); }
		{ Sess s; put(s); s.del("T", cmp(LT, F("id"), L(Int(n / 2)))); s.insert("T", {t.rows[0]}); s.update("T", {{"c2", Nul(VT_VARCHAR)}}, nullptr); s.del("T", nullptr); s.select(star("T")); s.close(); }
		history(); });
	nm::add_names(nm::UPD | nm::DEL);
	seq::add_seq(nm::UPD | nm::DEL);
	at::add_attr(nm::UPD | nm::DEL);
	big::add_big(nm::UPD | nm::DEL);
	tz::add_tz(nm::UPD | nm::DEL);
	return mc::run(argc, argv, {"C03", "model_checking", nullptr, {"values outside the listed domains are not covered", "TINYINT values have no order: < <= > >= on them are never satisfied"}});
}
