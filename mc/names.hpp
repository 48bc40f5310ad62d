// Names that are easily mistaken for one another, and sizes beyond what small
// domains have: shared suites, each check takes the statement kinds of its property.
#pragma once
#include "dom.hpp"
namespace nm {
using namespace sq;
enum { INS = 1, SEL = 2, WH = 4, UPD = 8, DEL = 16, GRP = 32, JN = 64, CRT = 128, REJ = 256, ALL = 511 };
static int kinds;
// prefixes of one another, equal up to case, up to the last of many characters, swapped, like the tables'
inline const vector<string> &names() { static vector<string> n = {"a", "ab", "abc", "A", "aB", "b", "ba", "a1", "a11", "a_", "T", "Tab", string(60, 'q'), string(59, 'q') + "r", string(60, 'q') + "q", "Q" + string(59, 'q')}; return n; }
inline const vector<vector<string>> &tabs() { static vector<vector<string>> t = {{"T", "Ta"}, {"t", "T"}, {"ab", "a"}, {string(50, 'q') + "x", string(50, 'q') + "y"}}; return t; }
static int TS; // how many of the table name pairs are used per case
inline void one(uint64_t i) {
	auto &N = names(); mc::Radix r(i); size_t n = N.size(), x = r.take(n), y = r.take(n), z = r.take(n); if (x == y || y == z || x == z) return;
	vector<string> c = {N[x], N[y], N[z]};
	for (int t = 0; t < TS; t++) { auto &tn = tabs()[(i + t) % tabs().size()]; size_t m0 = mc::mark();
		Sess s; Tab T; T.name = tn[0]; for (auto &k : c) T.cols.push_back(C(k)); Tab U; U.name = tn[1]; U.cols = {C(c[2]), C(c[0])};
		if (kinds & CRT) { string sql = "CREATE TABLE " + T.name + " (" + c[0] + " INT, " + c[1] + " INT, " + c[2] + " INT, INDEX(" + c[1] + "), PRIMARY KEY(" + c[2] + "));"; s.ok(sql, 0); T.cols[2].notnull = true; s.m[T.name] = T; void *tb = vdb_table(s.db, T.name.c_str()); if (!tb) fail("the table cannot be found"); for (int k = 0; k < 3; k++) { vcol vc; vt_col(tb, k, &vc); if (!!vc.indexed != (k == 1) || !!vc.primary_key != (k == 2) || !!vc.unique != (k == 2)) fail(fmt("column %s: index %d, primary key %d, unique %d", c[k].c_str(), vc.indexed, vc.primary_key, vc.unique)); } s.check_schema(T.name); s.create(U); s.check_all(); s.err("CREATE TABLE " + T.name + " (z INT);"); s.check_all(); mc::history(); mc::rewind_to(m0); continue; }
		s.create(T); s.create(U);
		s.insert(T.name, {{Int(1), Int(2), Int(3)}, {Int(2), Int(3), Int(1)}, {Nul(), Int(1), Int(2)}, {Int(3), Nul(), Int(3)}, {Int(2), Int(2), Nul()}}); s.insert(U.name, {{Int(1), Int(3)}, {Int(3), Int(2)}, {Nul(), Int(1)}});
		if (kinds & INS) { static const int P[15][4] = {{1, 0}, {1, 1}, {1, 2}, {2, 0, 1}, {2, 1, 0}, {2, 0, 2}, {2, 2, 0}, {2, 1, 2}, {2, 2, 1}, {3, 0, 1, 2}, {3, 0, 2, 1}, {3, 1, 0, 2}, {3, 1, 2, 0}, {3, 2, 0, 1}, {3, 2, 1, 0}}; for (auto &p : P) { vector<string> l; Row v; for (int k = 0; k < p[0]; k++) { l.push_back(c[p[k + 1]]); v.push_back(Int(10 + k)); } s.insert(T.name, {v}, l); s.check(T.name); } s.check(U.name); }
		if (kinds & SEL) { for (auto &a : c) { s.select(list(T.name, {a})); for (auto &b : c) if (a != b) s.select(list(T.name, {a, b})); } s.select(star(T.name)); s.select(star(U.name)); s.select(list(U.name, {c[0], c[2]})); }
		if (kinds & WH) { for (auto &a : c) { s.select(list(T.name, c, cmp(EQ, F(a), L(Int(2))))); s.select(list(T.name, c, cmp(LT, L(Int(2)), F(a, T.name)))); s.select(star(T.name, isnull(F(a)))); s.select(star(T.name, in(F(a), {Int(3), Int(1)}))); for (auto &b : c) if (a != b) { s.select(star(T.name, cmp(EQ, F(a), F(b)))); s.select(star(T.name, bin(Cond::AND, cmp(EQ, F(a), L(Int(2))), cmp(NE, F(b), L(Int(3)))))); } } }
		if (kinds & UPD) { int v = 20; for (auto &a : c) { s.update(T.name, {{a, Int(v++)}}, isnull(F(c[1]))); s.update(T.name, {{a, Int(v++)}, {c[0], Int(v++)}}, cmp(EQ, F(a), L(Int(2)))); s.update(T.name, {{a, Nul()}}, in(F(c[2]), {Int(3)})); s.update(T.name, {{c[2], Int(v++)}, {c[1], Int(v++)}, {c[0], Int(2)}}, cmp(GE, F(a), L(Int(20)))); } s.check(U.name); s.update(U.name, {{c[0], Int(v)}}, nullptr); s.check(T.name); }
		if (kinds & DEL) { s.del(T.name, cmp(EQ, F(c[0]), F(c[1]))); s.del(T.name, isnull(F(c[1]))); s.del(T.name, in(F(c[2]), {Int(3)})); s.del(T.name, cmp(EQ, F(c[0]), L(Int(2)))); s.check(U.name); s.del(U.name, cmp(EQ, F(c[2]), L(Int(3)))); s.check(T.name); s.del(T.name, nullptr); s.check(U.name); }
		if (kinds & GRP) { for (auto &a : c) { Sel q; From f; f.table = T.name; q.from = {f}; q.items = {F(a)}; q.group = {F(a)}; q.count = true; s.select(q); for (auto &b : c) if (a != b) { Sel p; p.from = {f}; p.items = {F(b), F(a)}; p.group = {F(a), F(b)}; p.count = true; p.count_at = 1; s.select(p); } } }
		if (kinds & JN) { From f, g; f.table = T.name; g.table = U.name; for (auto &a : c) for (auto &b : {c[0], c[2]}) for (int j = 0; j < 3; j++) { Sel q; q.from = {f, g}; q.from[1].join = j; CP on = cmp(EQ, F(a, T.name), F(b, U.name)); if (j) q.from[1].on = on; else q.where = on; q.items = {F(a, T.name), F(b, U.name), F(c[1])}; s.select(q); Sel p = q; std::swap(p.from[0].table, p.from[1].table); p.items = {}; p.star = true; s.select(p); } }
		if (kinds & REJ) { auto refuse = [&](const string &q) { s.err(q); s.check(U.name); }; const string &u = U.name, &q = c[1], &p = c[0]; // column c[1] is not in U
			refuse("SELECT " + q + " FROM " + u + ";"); refuse("SELECT " + p + " FROM " + u + " WHERE " + q + " = 1;"); refuse("SELECT " + p + " FROM " + u + " WHERE " + q + " IS NULL;"); refuse("SELECT " + p + " FROM " + u + " WHERE " + q + " IN (1);"); refuse("SELECT COUNT(*) FROM " + u + " GROUP BY " + q + ";"); refuse("SELECT " + u + "." + q + " FROM " + u + ";"); refuse("UPDATE " + u + " SET " + q + " = 1;"); refuse("UPDATE " + u + " SET " + p + " = 1 WHERE " + q + " = 1;"); refuse("DELETE FROM " + u + " WHERE " + q + " = 1;"); refuse("DELETE FROM " + u + " WHERE " + q + " IS NULL;"); refuse("DELETE FROM " + u + " WHERE " + q + " IN (1);"); refuse("INSERT INTO " + u + " (" + q + ") VALUES (1);"); refuse("INSERT INTO " + u + " (" + p + ", " + q + ") VALUES (1, 2);"); refuse("SELECT " + T.name + "." + p + " FROM " + u + ";"); refuse("SELECT " + p + " FROM " + u + ", " + T.name + ";"); refuse("INSERT INTO " + u + " (" + p + ", " + p + ") VALUES (1, 2);"); string gone = u == "Ta" ? "Tab" : u == "T" ? "TT" : u == "a" ? "A" : string(50, 'q') + "z"; refuse("SELECT * FROM " + gone + ";"); refuse("DELETE FROM " + gone + ";"); refuse("UPDATE " + gone + " SET " + p + " = 1;"); refuse("INSERT INTO " + gone + " VALUES (1, 2);"); refuse("CREATE TABLE " + gone + " (" + p + " INT, " + q + " INT, " + p + " INT);"); s.check(T.name); }
		mc::history(); mc::rewind_to(m0); }
}
// one table of two columns; conditions, lists and texts of every size, one place of which decides
inline void sizes(uint64_t i) {
	int n = (int)(i / 2) + 1; bool str = i & 1;
	Sess s; Tab T; T.name = "T"; T.cols = {C("k"), str ? C("v", VT_VARCHAR, 320) : C("v")}; auto val = [&](int k) { if (!str) return Int(1000 + k); string x((size_t)n, 'm'); if (k < n) x[k] = 'n'; return Str(x); }; // texts of n bytes that differ in byte k only
	int m = n; vector<Row> rows; for (int k = 0; k <= m; k++) rows.push_back({Int(k), val(k)}); rows.push_back({Int(m + 1), Nul()}); if (str) { rows.push_back({Int(m + 2), Str(string((size_t)n - 1, 'm'))}); rows.push_back({Int(m + 3), Str(string((size_t)n + 1, 'm'))}); }
	s.create(T); s.insert("T", rows); int step = n < 12 ? 1 : n / 5;
	for (int k = 0; k <= m; k += step) { size_t m0 = mc::mark();
		vector<Val> all; for (int j = 0; j <= m && (int)all.size() < n; j++) if (j != k) all.push_back(val(j)); bool deep = !str || n <= 64; if (!deep) all.resize(2, val((k + 1) % (m + 1)));
		vector<Val> hit = all; hit.insert(hit.begin() + (long)std::min((size_t)k, hit.size()), val(k));
		vector<CP> cs = {cmp(EQ, F("v"), L(val(k))), cmp(NE, L(val(k)), F("v")), in(F("v"), {val(k)}), in(F("v"), hit), in(F("v"), all), in(F("v"), all, true), in(F("v"), hit, true)};
		if (n <= 48) for (int o = 0; o < 3; o++) { CP ch; for (int j = 0; j < n; j++) { CP leaf = o == 0 ? cmp(j == k ? EQ : NE, F("k"), L(Int(j))) : cmp(j == k ? NE : EQ, F("k"), L(Int(j))); ch = ch ? bin(o == 0 ? Cond::AND : o == 1 ? Cond::OR : Cond::XOR, ch, leaf) : leaf; } cs.push_back(ch); }
		for (auto &c : cs) { if (kinds & WH) s.select(list("T", {"k"}, c)); if (kinds & (UPD | DEL)) { Tab keep = s.m["T"]; if (kinds & UPD) { s.update("T", {{"k", Int(-7)}}, c); s.del("T", nullptr); s.insert("T", keep.rows); } if (kinds & DEL) { s.del("T", c); s.del("T", nullptr); s.insert("T", keep.rows); } } if (kinds & JN) { if (!s.m.count("U")) { Tab U; U.name = "U"; U.cols = {C("x"), T.cols[1]}; U.cols[1].name = "w"; s.create(U); s.insert("U", {{Int(1), val(0)}, {Int(2), val(m)}, {Int(3), Nul(T.cols[1].ty)}}); } From f, g; f.table = "T"; g.table = "U"; g.join = 1; g.on = cmp(EQ, F("v"), F("w")); Sel q; q.from = {f, g}; q.where = c; q.items = {F("x"), F("k")}; s.select(q); } }
		mc::history(); mc::rewind_to(m0); }
	if (kinds & GRP) { Sel q; From f; f.table = "T"; q.from = {f}; q.items = {F("v")}; q.group = {F("v")}; q.count = true; s.insert("T", {rows[0], rows[(size_t)m], rows[(size_t)m + 1]}); s.select(q); mc::history(); }
	if (kinds & INS) { s.check("T"); s.insert("T", {{val(0), Int(5)}}, {"v", "k"}); s.check("T"); mc::history(); }
}
// texts, lists and chains of sizes about every power of two; the places about powers of two decide
inline void large(uint64_t i) {
	static const int N[] = {121, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9998}; int n = N[i / 3], what = (int)(i % 3); if (what && n > 1025) return; if (what == 2 && n > 300) return;
	vector<int> at; for (int k = 0; k < n; k++) if (k < 2 || k >= n - 2 || k == n / 2 || ((k & (k - 1)) == 0 && k >= 64) || (((k + 1) & k) == 0 && k >= 63)) at.push_back(k); if (n > 2000 && !what && (kinds & (UPD | DEL))) { vector<int> few; for (size_t j = 0; j < at.size(); j++) if (j == 0 || j + 2 >= at.size() || (n > 4000 ? j % 5 == 3 : j % 2)) few.push_back(at[j]); at = few; }
	Sess s; Tab T; T.name = "T"; T.cols = {C("k"), what ? C("v") : C("v", VT_VARCHAR, n + 1)}; auto val = [&](int k) { if (what) return Int(1000 + k); string x((size_t)n, 'm'); if (k < n) x[(size_t)k] = 'n'; return Str(x); };
	vector<Row> rows; for (int k : at) rows.push_back({Int(k), val(k)}); rows.push_back({Int(n), val(n)}); rows.push_back({Int(n + 1), Nul()}); if (!what) rows.push_back({Int(n + 2), Str(string((size_t)n - 1, 'm'))});
	s.create(T); s.insert("T", rows); s.check("T");
	for (int k : at) { size_t m0 = mc::mark(); vector<CP> cs;
		if (what == 0) { Val other = val(at[(size_t)(k == at[0])]); cs = {cmp(EQ, F("v"), L(val(k))), cmp(NE, L(val(k)), F("v")), in(F("v"), {val(k), other}), in(F("v"), {other}), in(F("v"), {other, val(k)}, true)}; }
		if (what == 1) { vector<Val> all, hit; for (int j = 0; j < n; j++) { hit.push_back(val(j)); if (j != k) all.push_back(val(j)); } cs = {in(F("v"), hit), in(F("v"), all), in(F("v"), all, true)}; }
		if (what == 2) for (int o = 0; o < 3; o++) { CP ch; for (int j = 0; j < n; j++) { CP leaf = o == 0 ? cmp(j == k ? EQ : NE, F("k"), L(Int(j))) : cmp(j == k ? NE : EQ, F("k"), L(Int(j))); ch = ch ? bin(o == 0 ? Cond::AND : o == 1 ? Cond::OR : Cond::XOR, ch, leaf) : leaf; } cs.push_back(ch); }
		for (auto &c : cs) { Tab keep = s.m["T"]; if (kinds & WH) s.select(list("T", {"k"}, c)); if (kinds & UPD) { s.update("T", {{"k", Int(-7)}}, c); s.check("T"); s.del("T", nullptr); s.insert("T", keep.rows); } if (kinds & DEL) { s.del("T", c); s.check("T"); s.del("T", nullptr); s.insert("T", keep.rows); } }
		if (!what && (kinds & UPD)) { Tab keep = s.m["T"]; s.update("T", {{"v", val(k)}}, cmp(EQ, F("k"), L(Int(n)))); s.check("T"); s.update("T", {{"v", Nul()}}, cmp(EQ, F("v"), L(val(k)))); s.check("T"); s.del("T", nullptr); s.insert("T", keep.rows); }
		if (kinds & JN) { if (!s.m.count("U")) { Tab U; U.name = "U"; U.cols = {C("x"), T.cols[1]}; U.cols[1].name = "w"; s.create(U); s.insert("U", {{Int(1), val(0)}, {Int(2), val(n)}, {Int(3), Nul(T.cols[1].ty)}}); } s.insert("U", {{Int(10 + k), val(k)}}); From f, g; f.table = "T"; g.table = "U"; g.join = 1; g.on = cmp(EQ, F("v"), F("w")); Sel q; q.from = {f, g}; q.items = {F("x"), F("k")}; s.select(q); for (auto &c : cs) { q.where = c; s.select(q); } }
		mc::history(); mc::rewind_to(m0); }
	if (kinds & GRP) { Sel q; From f; f.table = "T"; q.from = {f}; q.items = {F("v")}; q.group = {F("v")}; q.count = true; s.insert("T", {rows[0], rows.back(), rows[rows.size() / 2]}); s.select(q); mc::history(); }
	if (kinds & INS) { s.insert("T", {{val(0), Int(5)}, {Nul(), Int(6)}}, {"v", "k"}); s.check("T"); mc::history(); }
}
// tables of n columns; every column in turn is the one that decides (row b has NULL in the columns whose number has bit b)
static vector<int> widths;
inline void positions(uint64_t i) {
	static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
	int part = (int)(i % 4), n = widths[i / 8]; bool mixed = i / 4 & 1; Tab T; T.name = "T"; auto ty = [&](int c) { return mixed ? tys[(c * 7 + n) % 6] : (int)VT_INTEGER; };
	auto val = [&](int c, int b) { switch (ty(c)) { case VT_INTEGER: return Int(c * 10 + b % 3); case VT_VARCHAR: return Str(fmt("v%d.%d", c, b % 3)); case VT_DOUBLE: return Dbl(c + b % 3 / 4.0); case VT_TINYINT: return Tiny((c + b) % 2); case VT_DATE: return Date(fmt("2%03d-01-%02d", c, b % 3 + 1)); default: return DTime(fmt("2%03d-01-02 03:04:%02d", c, b % 3)); } };
	auto row = [&](int b) { Row r; for (int c = 0; c < n; c++) r.push_back(b < 8 && ((c + 1) >> b & 1) ? Nul(ty(c)) : val(c, b)); return r; };
	for (int c = 0; c < n; c++) T.cols.push_back(C(fmt("c%d", c), ty(c), 16)); for (int b = 0; b < 10; b++) T.rows.push_back(row(b));
	bool slow = (kinds & (UPD | DEL)) && n > 40 && !mc::thorough(); if (part >= n) return; // statements that change the table need it filled again
	Sess s; s.fill(T); s.check("T"); bool joins = (kinds & JN) && n <= 126; if (joins) { Tab U; U.name = "U"; U.cols = {C("x"), C("y", ty(n - 1), 16)}; s.create(U); s.insert("U", {{Int(1), val(n - 1, 0)}, {Int(2), Nul(ty(n - 1))}, {Int(3), val(n - 1, 1)}}); }
	for (int c = part; c < n; c += 4) { if (slow && c > 2 && c < n - 2 && (c < 62 || c > 66) && c % 3) continue; size_t m0 = mc::mark(); string x = T.cols[c].name, y = T.cols[(c + n / 2) % n].name; int t = ty(c);
		vector<CP> cs = {isnull(F(x)), isnull(F(x), true), cmp(EQ, F(x), L(val(c, 1))), cmp(NE, L(val(c, 2)), F(x)), in(F(x), {val(c, 1), val(c, 2)})}; if (ty((c + n / 2) % n) == t) cs.push_back(cmp(EQ, F(x), F(y)));
		if (kinds & INS) { s.insert("T", {{val(c, 1)}, {Nul(t)}}, {x}); if (n > 1) { Row r = row(9); r[c] = Nul(t); s.insert("T", {r}); } s.check("T"); s.del("T", nullptr); s.insert("T", T.rows); s.check("T"); }
		if (kinds & SEL) { s.select(list("T", {x})); if (n > 1) { s.select(list("T", {x, T.cols[(c + 1) % n].name})); s.select(list("T", {T.cols[(c + n - 1) % n].name, x})); } }
		if (kinds & WH) for (auto &w : cs) s.select(list("T", {x}, w));
		if (kinds & UPD) { Sess u; u.fill(T); for (auto &w : cs) u.update("T", {{y, val((c + n / 2) % n, 0)}}, w); u.update("T", {{x, Nul(t)}}, nullptr); u.update("T", {{x, val(c, 2)}}, isnull(F(x))); u.close(); }
		if (kinds & DEL) { Sess u; u.create(T); for (size_t k = 0; k < cs.size(); k++) { u.insert("T", T.rows); u.del("T", cs[k]); if (k % 2) u.del("T", cs[0]); u.del("T", nullptr); } u.close(); }
		if ((kinds & GRP) && n < 128) { Sel q; From f; f.table = "T"; q.from = {f}; q.items = {F(x)}; q.group = {F(x)}; q.count = true; s.select(q); if (n > 1) { q.items.push_back(F(T.cols[(c + 1) % n].name)); q.group.insert(q.group.begin(), q.items[1]); s.select(q); } q.items = {}; q.group = {}; q.where = isnull(F(x)); s.select(q); }
		if (joins && t == ty(n - 1)) for (int j = 0; j < 3; j++) { Sel q; From f, g; f.table = j == 2 ? "U" : "T"; g.table = j == 2 ? "T" : "U"; g.join = j; CP on = cmp(EQ, F(x), F("y")); q.from = {f, g}; if (j) q.from[1].on = on; else q.where = on; q.items = {F("x"), F(x), F(T.cols[n - 1].name)}; s.select(q); q.from[1].on = j ? cmp(NE, F("y"), F(x)) : nullptr; q.where = bin(Cond::AND, isnull(F(x), true), cmp(NE, F("x"), L(Int(2)))); s.select(q); }
		mc::history(); mc::rewind_to(m0); }
	s.close();
}
inline void add_names(int k) { const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	kinds = k; TS = th ? (int)tabs().size() : 1; uint64_t n = names().size();
	mc::add("similar names", fmt("tables of every three columns out of %zu names that are prefixes of one another, equal up to case or up to one of many characters, in tables of similar names: every statement form of this property over each of them", names().size()), n * n * n, one);
	if (k & (WH | UPD | DEL | GRP | JN | INS)) { int top = th ? 300 : 120; mc::add("sizes", fmt("texts of every length up to %d that differ in one byte, IN lists of every length up to %d and chains of up to 48 comparisons, with every place (or every fifth) deciding", top, top), (uint64_t)top * 2, sizes); }
	if (k & (WH | UPD | DEL | GRP | JN | INS)) mc::add("large sizes", "texts of up to 9998 bytes that differ in one byte, IN lists of up to 1025 values and chains of up to 300 comparisons, at sizes and places about every power of two", 78, large, 1);
	if (k & (WH | UPD | DEL | GRP | JN | INS | SEL)) { if (th) for (int n = 1; n <= 128; n++) widths.push_back(n); else widths = {1, 2, 3, 7, 8, 9, 17, 31, 32, 33, 63, 64, 65, 66, 97, 126, 127, 128}; mc::add("positions", "tables of up to 128 columns (of one type, of mixed types), every column in turn the one that decides, with NULL patterns that tell any two columns apart", widths.size() * 8, positions, 1); }
}
}
