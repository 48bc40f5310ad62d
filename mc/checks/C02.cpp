// C02: SELECT ... WHERE against a direct reading of the condition
#include "../seq.hpp"
#include "../attr.hpp"
#include "../big.hpp"
#include "../tz.hpp"
using namespace sq; using namespace mc;
static Tab atom_table(int ty) { Tab t; t.name = "T"; t.cols = {C("id"), C("n", VT_VARCHAR), C("x", ty), C("y", ty)}; int64_t id = 0; auto d = domain(ty); for (int k = 0; k < 2; k++) for (size_t i = 0; i < d.size(); i++) t.rows.push_back({Int(++id), id % 3 ? Str("n") : Nul(VT_VARCHAR), d[i], d[(i + k) % d.size()]}); return t; }
static Tab pair_table(int ty) { Tab t; t.name = "T"; t.cols = {C("x", ty), C("id"), C("y", ty)}; int64_t id = 0; auto d = domain(ty); for (auto &a : d) for (auto &b : d) t.rows.push_back({a, Int(++id), b}); return t; }
static void one(Sess &s, const Tab &t, const CP &c, int style) {
	Style st; st.parens = style; size_t m = mark();
	s.select(star(t.name, c), st); s.check(t.name); history(); rewind_to(m);
}
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	static vector<std::pair<int, vector<CP>>> A; // blocks of conditions
	for (int ty : tys) {
		auto all = atoms(F("x"), ty, th ? 3 : 2); for (size_t i = 0; i < all.size(); i += 100) A.push_back({ty, vector<CP>(all.begin() + i, all.begin() + std::min(all.size(), i + 100))});
		auto q = atoms(F("x", "T"), ty, 1); A.push_back({ty, q});
	}
	add("atoms", "every single condition over one column (all types, operators, literals of the domain, either side, NULL, IN lists), on a table with every value", A.size(), [](uint64_t i) {
		Sess s; Tab t = atom_table(A[i].first); s.fill(t); for (auto &c : A[i].second) one(s, t, c, 0); s.close(); });
	add("columns", "every comparison of two columns of one type, on a table with every pair of values", 6, [](uint64_t i) {
		Sess s; Tab t = pair_table(tys[i]); s.fill(t);
		for (int q = 0; q < 3; q++) for (auto &c : pairs(F("x", q & 1 ? "T" : ""), F("y", q & 2 ? "T" : ""), tys[i])) one(s, t, c, 0);
		s.close(); });
	add("constants", "every comparison of two literals of one type", 6, [](uint64_t i) {
		Sess s; Tab t = atom_table(tys[i]); s.fill(t); if (tys[i] == VT_DATE || tys[i] == VT_DATETIME) return; // dates are text there
		auto d = domain(tys[i]); for (auto &a : d) for (auto &b : d) for (int o : ops_of(tys[i])) if (!a.null && !b.null) one(s, t, cmp(o, L(a), L(b)), 0);
		s.close(); });
	int maxl = th ? 5 : 4;
	for (int n = 2; n <= maxl; n++) {
		uint64_t total = trees(n, 4), per = 512;
		add(fmt("trees%d", n), fmt("every AND/OR/XOR tree with %d leaves, written with and without redundant parentheses, on the 27 combinations of three columns", n), (total + per - 1) / per, [n, total, per](uint64_t i) {
			Sess s; Tab t = T3(); s.fill(t); auto at = tree_atoms();
			for (uint64_t k = i * per; k < std::min(total, (i + 1) * per); k++) for (int st = 0; st < (n >= 4 ? 1 + (n == 4 && thorough()) : 3); st++) one(s, t, tree(n, at, k), st);
			s.close(); });
	}
	// contents: every list of up to k rows of two columns, with every subset deleted
	static vector<CP> cc = {cmp(EQ, F("x"), L(Int(1))), cmp(NE, F("x"), L(Int(0))), cmp(LT, F("x"), F("y")), isnull(F("y")), in(F("x"), {Int(0), Int(1)}), in(F("y"), {Int(0)}, true), bin(Cond::AND, cmp(GE, F("x"), L(Int(0))), isnull(F("y"), true)), bin(Cond::OR, isnull(F("x")), cmp(LE, F("y"), L(Int(0))))};
	int k = th ? 4 : 3; uint64_t n = 0, p = 1; for (int i = 0; i <= k; i++, p *= 9) n += p;
	add("contents", fmt("every table of up to %d rows over {NULL,0,1}, every subset of them deleted, under %zu conditions", k, cc.size()), n, [](uint64_t i) {
		int len = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 9; len++; } Radix r(i); vector<Row> rows; vector<Val> d = {Nul(), Int(0), Int(1)};
		for (int j = 0; j < len; j++) { int a = (int)r.take(3), b = (int)r.take(3); rows.push_back({Int(j), d[a], d[b]}); }
		for (int del = 0; del < 1 << len; del++) {
			size_t m = mark(); Sess s; Tab t; t.name = "T"; t.cols = {C("id"), C("x"), C("y")}; t.rows = rows; s.fill(t);
			for (int j = 0; j < len; j++) if (del >> j & 1) s.del("T", cmp(EQ, F("id"), L(Int(j))));
			for (auto &c : cc) one(s, t, c, 0);
			one(s, t, nullptr, 0); s.close(); rewind_to(m);
		} });
	add("pages", "every number of rows up to three pages, every row singled out, with and without holes", th ? 120 : 40, [](uint64_t i) {
		Sess s; Tab t = wide("T", i & 1 ? 60 : 127); i >>= 1; bool holes = i & 1; int n = (int)(i >> 1) * (thorough() ? 1 : 3) ;
		for (int j = 0; j < n; j++) t.rows.push_back(wide_row(t, j));
		s.create(t); for (int j = 0; j < n; j += 7) s.insert("T", vector<Row>(t.rows.begin() + j, t.rows.begin() + std::min(n, j + 7)));
		if (holes) for (int j = 0; j < n; j += 3) s.del("T", cmp(EQ, F("id"), L(Int(j))));
		for (int j = -1; j <= n; j++) for (int o : {EQ, NE, LT, GE}) one(s, t, cmp(o, F("id"), L(Int(j))), 0);
		one(s, t, nullptr, 0); s.close(); });
	nm::add_names(nm::WH);
	seq::add_seq(nm::WH);
	at::add_attr(nm::WH);
	big::add_big(nm::WH);
	tz::add_tz(nm::WH);
	return mc::run(argc, argv, {"C02", "model_checking", nullptr, {"values outside the listed domains are not covered", "TINYINT values have no order: < <= > >= on them are never satisfied"}});
}
