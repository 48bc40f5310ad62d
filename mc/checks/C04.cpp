// C04: joins against nested loops over every combination of rows
#include "../seq.hpp"
#include "../attr.hpp"
#include "../big.hpp"
#include "../tz.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
static uint64_t npop(int maxrows, uint64_t r) { uint64_t n = 0, p = 1; for (int i = 0; i <= maxrows; i++, p *= r) n += p; return n; }
// the i-th list of rows: (id, k, s)
static vector<Row> content(uint64_t i, const vector<Val> &d, int base) { int len = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= d.size(); len++; } Radix r(i); vector<Row> rows; for (int j = 0; j < len; j++) { Val v = d[r.take(d.size())]; rows.push_back({Int(base + j), v, j % 2 ? Nul(VT_VARCHAR) : Str(fmt("%c%d", base / 10 + 'a', j)), v.null ? Int(base) : Nul()}); } return rows; }
static Tab tab(const string &n, const vector<Row> &rows, const string &p = "") { Tab t; t.name = n; t.cols = {C("id" + p), C("k" + p), C("s" + p, VT_VARCHAR), C("w" + p)}; t.rows = rows; return t; }
static From f(const string &t, int join = 0, CP on = nullptr, const string &alias = "") { From x; x.table = t; x.join = join; x.on = on; x.alias = alias; return x; }
static vector<Sel> forms2() {
	vector<Sel> r; auto eq = [](int op, bool rev = false) { return rev ? cmp(op, F("k", "B"), F("k", "A")) : cmp(op, F("k", "A"), F("k", "B")); };
	auto mk = [&](vector<From> fr, CP w, vector<Opd> items = {}) { Sel s; s.star = items.empty(); s.items = items; s.from = fr; s.where = w; r.push_back(s); };
	vector<Opd> it = {F("s", "B"), F("id", "A"), F("s", "A"), F("k", "B")};
	for (int op = 0; op < 6; op++) for (int rev = 0; rev < 2; rev++) { mk({f("A"), f("B", 1 + rev, eq(op, rev))}, nullptr); mk({f("B"), f("A", 2 - rev, eq(op, rev))}, nullptr, it); mk({f("A"), f("B")}, eq(op, rev), it); }
	mk({f("A"), f("B")}, nullptr); mk({f("B"), f("A")}, nullptr); mk({f("B"), f("A")}, nullptr, it);
	CP sec = cmp(GT, F("id", "B"), F("id", "A")), lit_ = cmp(EQ, F("k", "A"), L(Int(1)));
	for (auto k : {Cond::AND, Cond::OR, Cond::XOR}) { mk({f("A"), f("B", 1, bin(k, eq(EQ), sec))}, nullptr); mk({f("A"), f("B", 1, bin(k, lit_, eq(NE)))}, nullptr); mk({f("A"), f("B")}, bin(k, eq(EQ), lit_)); mk({f("A"), f("B", 2, eq(EQ))}, bin(k, lit_, isnull(F("s", "B")))); }
	mk({f("A"), f("B", 1, lit_)}, nullptr); mk({f("A"), f("B", 1, cmp(EQ, F("s", "A"), F("s", "B")))}, nullptr); mk({f("A"), f("B", 1, eq(EQ))}, in(F("id", "A"), {Int(10), Int(21)}));
	mk({f("A"), f("B", 1, eq(EQ))}, isnull(F("w", "A")), {F("id", "A")}); mk({f("A"), f("B", 1, eq(EQ))}, cmp(NE, F("id", "B"), L(Int(20))), {F("id", "B"), F("w", "A")});
	mk({f("A", 0, nullptr, "x"), f("B", 1, cmp(EQ, F("k", "x"), F("k", "y")), "y")}, nullptr, {F("s", "y"), F("id", "x")});
	mk({f("A", 0, nullptr, "x"), f("B", 0, nullptr, "y")}, cmp(LE, F("k", "x"), F("k", "y")), {F("id", "y"), F("id", "x")});
	mk({f("A", 0, nullptr, "x"), f("B", 1, cmp(EQ, F("k", "x"), F("k", "B")))}, cmp(GE, F("id", "x"), L(Int(0))), {F("s", "B"), F("id", "x")});
	return r;
}
static vector<Sel> forms3() {
	vector<Sel> r; auto on = [](const char *a, const char *b, int op = EQ) { return cmp(op, F("k", a), F("k", b)); };
	auto mk = [&](vector<From> fr, CP w, vector<Opd> items = {}) { Sel s; s.star = items.empty(); s.items = items; s.from = fr; s.where = w; r.push_back(s); };
	vector<Opd> it = {F("s", "C"), F("id", "A"), F("s", "B"), F("id", "B"), F("k", "C")};
	const char *P[6][3] = {{"A", "B", "C"}, {"A", "C", "B"}, {"B", "A", "C"}, {"B", "C", "A"}, {"C", "A", "B"}, {"C", "B", "A"}};
	for (auto &p : P) {
		mk({f(p[0]), f(p[1], 1, on(p[0], p[1])), f(p[2], 2, on(p[1], p[2]))}, nullptr);
		mk({f(p[0]), f(p[1], 2, on(p[1], p[0])), f(p[2], 1, on(p[2], p[0], NE))}, nullptr, it);
		mk({f(p[0]), f(p[1]), f(p[2])}, bin(Cond::AND, on(p[0], p[1]), on(p[2], p[1])), it);
		mk({f(p[0]), f(p[1]), f(p[2])}, nullptr);
		mk({f(p[0]), f(p[1]), f(p[2])}, bin(Cond::OR, on(p[0], p[1]), on(p[0], p[2], LT)));
		mk({f(p[0]), f(p[1], 1, on(p[0], p[1])), f(p[2])}, on(p[2], p[1]), it);
		mk({f(p[0]), f(p[1]), f(p[2], 1, on(p[1], p[2]))}, on(p[0], p[1], NE), it);
		mk({f(p[0]), f(p[1], 1, on(p[0], p[1])), f(p[2], 1, bin(Cond::AND, on(p[0], p[2]), on(p[1], p[2])))}, cmp(GT, F("id", p[1]), L(Int(0))));
	}
	return r;
}
static void run_forms(const vector<Tab> &tabs, const vector<Sel> &forms) {
	Sess s; for (auto &t : tabs) s.fill(t);
	for (auto &q : forms) { size_t m = mark(); s.select(q); for (auto &t : tabs) s.check(t.name); history(); rewind_to(m); }
	s.close();
}
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	static auto F2 = forms2(); static auto F3 = forms3(); static vector<Val> d3 = {Nul(), Int(1), Int(2)}, d2 = {Int(1), Int(2)};
	static int k2 = th ? 4 : 2; static uint64_t n2 = npop(3, 3), n3 = npop(2, th ? 3 : 2);
	add("two", fmt("every content of two tables of up to %d rows with keys NULL,1,2, under %zu ways of joining them", 3, F2.size()), n2 * n2, [](uint64_t i) { Radix r(i); uint64_t a = r.take(n2), b = r.take(n2); run_forms({tab("A", content(a, d3, 10)), tab("B", content(b, d3, 20))}, F2); });
	add("lopsided", "every pair of a table of one row and a table of up to four rows, both ways round", npop(4, 3) * 2, [](uint64_t i) { Radix r(i); bool sw = r.take(2); auto x = content(r.take(npop(4, 3)), d3, 10), y = content(3, d3, 20); run_forms({tab("A", sw ? y : x), tab("B", sw ? x : y)}, F2); });
	add("three", fmt("every content of three tables of up to 2 rows with keys %s1,2, under %zu ways of joining them", th ? "NULL," : "", F3.size()), n3 * n3 * n3, [](uint64_t i) { Radix r(i); auto &d = thorough() ? d3 : d2; uint64_t a = r.take(n3), b = r.take(n3), c = r.take(n3); run_forms({tab("A", content(a, d, 10)), tab("B", content(b, d, 20)), tab("C", content(c, d, 30))}, F3); });
	add("types", "keys of every type, with the tables' columns in different orders and names", 6 * 4, [](uint64_t i) {
		Radix r(i); int ty = tys[r.take(6)]; int shape = (int)r.take(4); auto d = domain(ty); Tab a, b; a.name = "A"; b.name = "B"; string kb = shape & 2 ? "kk" : "k";
		a.cols = {C("id"), C("k", ty), C("t", VT_VARCHAR), C("d", VT_DOUBLE)}; b.cols = {C("u", VT_TINYINT), C("t", VT_VARCHAR, 9), C(kb, ty), C("id"), C("e", VT_DATE)};
		for (size_t j = 0; j < d.size() * 2; j++) { a.rows.push_back({Int(j), d[j % d.size()], j % 3 ? Str(fmt("a%zu", j)) : Nul(VT_VARCHAR), Dbl(j / 4.0)}); if (j % 3 != 1) b.rows.push_back({Tiny(j & 1), j % 4 ? Str(fmt("b%zu", j)) : Nul(VT_VARCHAR), d[(j * 5) % d.size()], Int(100 + j), j % 2 ? Date("2020-02-29") : Nul(VT_DATE)}); }
		vector<Sel> q; const char *x = shape & 1 ? "B" : "A", *y = shape & 1 ? "A" : "B"; Opd ka = F("k", "A"), kbq = shape & 2 ? F("kk") : F("k", "B");
		for (int o : ops_of(ty)) for (int form = 0; form < 3; form++) { Sel s; s.star = form < 2; if (!s.star) s.items = {F("e", "B"), F("t", "A"), F("u", "B"), F("d", "A"), F("t", "B"), kbq, ka}; CP c = form & 1 ? cmp(o, kbq, ka) : cmp(o, ka, kbq); s.from = {f(x), form == 1 ? f(y) : f(y, 1, c)}; if (form == 1) s.where = c; q.push_back(s); }
		run_forms({a, b}, q); });
	add("four", "four tables of up to two rows joined in a chain, in a star and as a list", 81, [](uint64_t i) {
		Radix r(i); vector<Tab> t; const char *nm[] = {"A", "B", "C", "D"}; static const uint64_t pick[] = {0, 2, 5}; for (int j = 0; j < 4; j++) t.push_back(tab(nm[j], content(pick[r.take(3)] + (j == 2), d2, 10 * (j + 1))));
		vector<Sel> q; for (int form = 0; form < 4; form++) { Sel s; s.star = form < 3; if (!s.star) for (int j = 3; j >= 0; j--) s.items.push_back(F("s", nm[j])); for (int j = 0; j < 4; j++) { const char *o = form == 0 ? (j ? nm[j - 1] : "") : "A"; s.from.push_back(j == 0 || form == 2 || (form == 3 && j == 2) ? f(nm[j]) : f(nm[j], 1 + j % 2, cmp(EQ, F("k", form == 3 && j == 3 ? "C" : o), F("k", nm[j])))); } if (form >= 2) s.where = bin(Cond::AND, cmp(EQ, F("k", "A"), F("k", "C")), cmp(NE, F("k", "B"), F("k", "D"))); q.push_back(s); }
		run_forms(t, q); });
	static const int MT[] = {5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 64, 65, 127, 128};
	add("many tables", "5 .. 128 tables of one or two columns joined in a chain, in a star and as a list; every table in turn is the one that is empty, has a second row, or a row that does not match", sizeof MT / sizeof *MT * 4, [](uint64_t i) {
		int n = MT[i / 4], form = (int)(i % 4), w = n <= 64 ? 2 : 1; vector<string> nm; for (int j = 0; j < n; j++) nm.push_back(fmt("t%d", (j * 37 + 5) % 131)); Sess s;
		for (int j = 0; j < n; j++) { Tab t; t.name = nm[j]; t.cols = {C("k")}; if (w == 2) t.cols.push_back(C("s", VT_VARCHAR, 12)); Row r = {Int(1)}; if (w == 2) r.push_back(Str(fmt("s%d", j))); t.rows = {r}; s.fill(t); }
		Sel q; for (int j = 0; j < n; j++) { const string &o = nm[j && (form == 0 || form == 3) ? j - 1 : 0]; q.from.push_back(j == 0 || form == 2 || (form == 3 && j % 3 == 1) ? f(nm[j]) : f(nm[j], 1 + j % 2, cmp(EQ, j % 2 ? F("k", o) : F("k", nm[j]), j % 2 ? F("k", nm[j]) : F("k", o)))); }
		if (form >= 2) { CP c; for (int j = 1; j < n && j < 12; j++) { CP x = cmp(EQ, F("k", nm[j]), F("k", nm[j - 1])); c = c ? bin(Cond::AND, c, x) : x; } q.where = c; }
		for (int v = -1; v < n; v++) { if (v > 4 && v < n - 4 && v % (1 + n / 12)) continue; size_t m0 = mark(); for (int what = 0; what < (v < 0 ? 1 : 3); what++) { size_t m = mark(); if (v >= 0) { if (what == 0) { Row r = {Int(1)}; if (w == 2) r.push_back(Nul(VT_VARCHAR)); s.insert(nm[v], {r}); } else if (what == 1) s.update(nm[v], {{"k", Int(2)}}, nullptr); else s.del(nm[v], nullptr); }
				for (int sel = 0; sel < 3; sel++) { Sel x = q; x.star = sel == 0; if (sel == 1) { for (int j = n - 1; j >= 0; j--) x.items.push_back(F(w == 2 ? "s" : "k", nm[(j * 5 + 1) % n == v ? v : j])); } if (sel == 2) x.items = {F("k", nm[v < 0 ? n - 1 : v]), F("k", nm[0])}; s.select(x); history(); }
				if (v >= 0) { Row r = {Int(1)}; if (w == 2) r.push_back(Str(fmt("s%d", v))); s.del(nm[v], nullptr); s.insert(nm[v], {r}); } rewind_to(m); } rewind_to(m0); }
		s.close(); }, 1);
	add("pages", "tables of up to three pages joined with tables of up to three pages, with and without deleted rows", th ? 200 : 50, [](uint64_t i) {
		Radix r(i); static const int ns[] = {0, 1, 7, 8, 9, 17, 3, 4, 16, 24}; int na = ns[r.take(thorough() ? 10 : 5)], nb = ns[r.take(thorough() ? 10 : 5)]; bool holes = r.take(2);
		Tab a = wide("A", 60), b = wide("B", 62); b.cols[0].name = "bid"; for (int j = 0; j < na; j++) { a.rows.push_back(wide_row(a, j)); } for (int j = 0; j < nb; j++) { b.rows.push_back(wide_row(b, nb - j)); b.rows.back()[1] = Int(j % 4); }
		Sess s; s.fill(a); s.fill(b); if (holes) { s.del("A", in(F("id"), {Int(0), Int(3), Int(7)})); s.del("B", in(F("bid"), {Int(2), Int(5), Int(8)})); }
		auto items = vector<Opd>{F("c2", "B"), F("id", "A"), F("c5", "A"), F("bid"), F("c1", "B"), F("c60", "B")};
		for (int o = 0; o < 6; o++) for (int form = 0; form < 3; form++) { size_t m = mark(); Sel q; q.items = items; CP c = cmp(o, F("id", "A"), F(form == 1 ? "c0" : "bid", "B")); q.from = {f(form == 2 ? "B" : "A"), form == 0 ? f("B") : f(form == 2 ? "A" : "B", 1, c)}; if (form == 0) q.where = c; s.select(q); s.check("A"); s.check("B"); history(); rewind_to(m); }
		s.close(); });
	nm::add_names(nm::JN);
	seq::add_seq(nm::JN);
	at::add_attr(nm::JN);
	big::add_big(nm::JN);
	tz::add_tz(nm::JN);
	return mc::run(argc, argv, {"C04", "model_checking", nullptr, {"the joined tables are distinct (a table joined with itself is refused)", "ON conditions are comparisons combined with AND, OR, XOR"}});
}
