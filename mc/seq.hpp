// What one statement may leave behind for the next: every ordered pair (thorough:
// every triple whose middle is refused) of a catalogue of statements over all
// column types, run in one session. Each check takes the statements of its
// property as the last one; the ones before it are any of the catalogue.
#pragma once
#include "names.hpp"
namespace seq {
using namespace sq;
struct St { int kind; std::function<void(Sess &)> run; };
struct Ty { int ty; string c, c2; vector<Val> v; };
inline const vector<Ty> &types() {
	static vector<Ty> t = {
		{VT_INTEGER, "i", "i2", {Int(5), Int(4294967301LL), Int(-5)}},
		{VT_VARCHAR, "v", "v2", {Str("abc"), Str("abcdefghijklmno"), Str("x")}},
		{VT_DOUBLE, "d", "d2", {Dbl(1.5), Dbl(-1e300), Dbl(0.25)}},
		{VT_TINYINT, "b", "b2", {Tiny(true), Tiny(false), Tiny(true)}},
		{VT_DATE, "a", "a2", {Date("2024-02-29"), Date("1931-12-01"), Date("2101-07-15")}},
		{VT_DATETIME, "t", "t2", {DTime("2024-02-29 13:14:15"), DTime("1931-12-01 23:59:59"), DTime("2101-07-15 00:00:01")}}};
	return t;
}
inline Tab tab(const string &name) {
	Tab t; t.name = name; t.cols = {C("id")};
	for (int k = 0; k < 2; k++) for (auto &y : types()) t.cols.push_back(C((name == "R" ? "r" : "") + (k ? y.c2 : y.c), y.ty, 16));
	for (int r = 0; r < 5; r++) { Row x = {Int(r)}; for (int k = 0; k < 2; k++) for (size_t j = 0; j < types().size(); j++) { auto &y = types()[j]; bool nul = r == 4 ? true : (r + (int)j + 3 * k) % 7 == 3; x.push_back(nul ? Nul(y.ty) : y.v[(r * (k + 1) + (name == "R")) % 3]); } t.rows.push_back(x); }
	return t;
}
inline vector<St> catalogue() {
	using namespace nm; vector<St> r; auto add = [&](int k, std::function<void(Sess &)> f) { r.push_back({k, f}); };
	auto ids = [](int n) { return cmp(EQ, F("id"), L(Int(n))); };
	for (size_t j = 0; j < types().size(); j++) { Ty y = types()[j], z = types()[(j + 1) % types().size()];
		vector<CP> cs = {cmp(EQ, F(y.c), L(y.v[0])), cmp(NE, L(y.v[1]), F(y.c)), in(F(y.c), {y.v[0], y.v[2]}), in(F(y.c2), {y.v[1], Nul(y.ty)}, true), cmp(EQ, F(y.c), F(y.c2)), isnull(F(y.c)),
			bin(Cond::OR, cmp(EQ, F(y.c), L(y.v[1])), cmp(EQ, F(z.c), L(z.v[0]))), bin(Cond::XOR, cmp(NE, F(z.c2), L(z.v[1])), cmp(EQ, L(y.v[0]), F(y.c2)))};
		if (y.ty != VT_VARCHAR && y.ty != VT_TINYINT) cs.push_back(cmp(LE, F(y.c), L(y.v[0])));
		for (size_t q = 0; q < cs.size(); q++) { CP c = cs[q];
			add(WH, [=](Sess &s) { s.select(list("T", {"id", y.c}, c)); });
			add(DEL, [=](Sess &s) { s.del("T", c); });
			add(UPD, [=](Sess &s) { s.update("T", {{y.c2, y.v[q % 3]}, {z.c, Nul(z.ty)}}, c); }); }
		for (int k = 0; k < 2; k++) add(UPD, [=](Sess &s) { s.update("T", {{y.c, y.v[(size_t)k]}}, k ? ids(2) : nullptr); });
		add(UPD, [=](Sess &s) { s.update("T", {{y.c, Nul(y.ty)}}, ids(1)); });
		add(INS, [=](Sess &s) { s.insert("T", {{y.v[0], Int(50)}}, {y.c, "id"}); s.check("T"); });
		add(INS, [=](Sess &s) { s.insert("T", {{Int(51), y.v[1], Nul(z.ty)}, {Int(52), Nul(y.ty), z.v[0]}, {Int(53), y.v[2], z.v[2]}}, {"id", y.c2, z.c2}); s.check("T"); });
		add(SEL, [=](Sess &s) { s.select(list("T", {y.c, z.c2})); });
		auto grp = [=](Sess &s, bool two) { Sel q; From f; f.table = "T"; q.from = {f}; q.items = {F(y.c)}; q.group = {F(y.c)}; if (two) { q.items.push_back(F(z.c2)); q.group.push_back(F(z.c2)); } q.count = true; s.select(q); };
		add(GRP, [=](Sess &s) { grp(s, false); }); add(GRP, [=](Sess &s) { grp(s, true); });
		add(GRP, [=](Sess &s) { Sel q; From f; f.table = "T"; q.from = {f}; q.count = true; q.where = isnull(F(y.c2)); s.select(q); });
		auto join = [=](Sess &s, int how) { Sel q; From f, g; f.table = "T"; g.table = "R"; g.join = how; CP on = how == 1 ? bin(Cond::AND, cmp(EQ, F(y.c), F("r" + y.c)), cmp(NE, F("id", "T"), F("id", "R"))) : cmp(EQ, F(y.c), F("r" + y.c)); q.from = {f, g}; if (how) q.from[1].on = on; else q.where = on; q.items = {F("id", "T"), F("r" + y.c2), F(z.c)}; s.select(q); };
		for (int h = 0; h < 3; h++) add(JN, [=](Sess &s) { join(s, h); });
		add(JN, [=](Sess &s) { Sel q; From f, g; f.table = "T"; f.alias = "R"; g.table = "R"; g.alias = "t_" + y.c; g.join = 1; g.on = cmp(EQ, F(y.c, "R"), F("r" + y.c, g.alias)); q.from = {f, g}; q.items = {F("id", "R"), F("id", g.alias)}; q.where = isnull(F(z.c), true); s.select(q); });
		string w = lit(z.v[0]), bad = y.ty == VT_VARCHAR ? "7" : y.ty == VT_DATE || y.ty == VT_DATETIME ? "'no date'" : "'a text'";
		for (string e : {"SELECT id FROM T WHERE " + y.c + " = " + bad + ";", "SELECT id FROM T WHERE id = 1 AND nofield = " + lit(y.v[0]) + ";", "DELETE FROM T WHERE " + y.c + " = " + bad + ";", "UPDATE T SET " + y.c + " = " + bad + " WHERE id = 1;", "UPDATE T SET " + z.c + " = " + w + ", " + y.c + " = " + bad + ";",
			"INSERT INTO T (id, " + z.c + ", " + y.c + ") VALUES (60, " + w + ", " + bad + ");", "INSERT INTO T (" + y.c + ", " + y.c + ") VALUES (" + lit(y.v[0]) + ", NULL);", "INSERT INTO T VALUES (1, " + lit(y.v[0]) + ");", "SELECT " + y.c + ", COUNT(*) FROM T GROUP BY " + z.c + ";", "SELECT T.id FROM T JOIN R ON T." + y.c + " = R.r" + z.c + "x;"})
			add(REJ, [=](Sess &s) { s.err(e); s.check("T"); s.check("R"); }); }
	for (string e : {"SELECT id FROM T WHERE (id = 1;", "SELEC id FROM T;", "INSERT INTO T VALUES (1,;", "DELETE FROM T WHERE id = 'x", "SELECT * FROM T, T;", "SELECT id FROM T JOIN R ON T.id = R.id;", "CREATE TABLE T (a INT);", "CREATE TABLE N (a INT, a INT);", "CREATE TABLE N (a INT, PRIMARY KEY(b));", "SELECT id FROM nowhere;", "DELETE FROM nowhere;", "UPDATE nowhere SET id = 1;", "INSERT INTO T (id) VALUES (9223372036854775807 + 1);", ";", "SELECT id FROM T ORDER BY id;"})
		add(REJ, [=](Sess &s) { s.err(e); s.check("T"); s.check("R"); });
	add(SEL, [=](Sess &s) { s.select(star("T")); }); add(SEL, [=](Sess &s) { s.select(star("R")); });
	add(INS, [=](Sess &s) { Tab t = tab("T"); vector<Row> rows; for (auto &r : t.rows) { Row x; for (auto &c : s.m["T"].cols) { int k = t.idx(c.name); x.push_back(k < 0 ? Nul(c.ty) : r[(size_t)k]); } rows.push_back(x); } s.insert("T", rows); s.check("T"); });
	add(INS, [=](Sess &s) { Row r; for (auto &c : s.m["T"].cols) r.push_back(Nul(c.ty)); s.insert("T", {r}); s.check("T"); });
	add(INS, [=](Sess &s) { s.ok("INSERT INTO T (id, d) VALUES (2 + 3 * 4 - 20 / 6, 0.5 * 3.0 - 1.25), (7 % 4, NULL);", 2); auto &T = s.m["T"]; for (int k = 0; k < 2; k++) { Row x; for (auto &c : T.cols) x.push_back(Nul(c.ty)); x[(size_t)T.idx("id")] = Int(k ? 3 : 11); if (!k) x[(size_t)T.idx("d")] = Dbl(0.25); T.rows.push_back(x); } s.check("T"); });
	add(DEL, [=](Sess &s) { s.del("T", nullptr); }); add(DEL, [=](Sess &s) { s.del("R", in(F("id"), {Int(1), Int(3)})); });
	for (int k = 0; k < 3; k++) add(CRT, [=](Sess &s) { Tab n = tab(fmt("N%zu", s.m.size())); n.rows.clear(); if (k) { n.cols.resize(k == 1 ? 1 : 3); if (k == 1) n.cols[0].notnull = true; else n.cols[2].attrs = "UNIQUE"; } s.create(n); s.check_schema(n.name); s.check(n.name); });
	return r;
}
static vector<St> cat; static vector<size_t> last, mid;
inline void pairs_(uint64_t i) {
	static Tab T = tab("T"), R = tab("R");
	for (size_t j : last) { size_t m0 = mc::mark(); Sess s; s.fill(T); s.fill(R); cat[i].run(s); cat[j].run(s); if (j % 4 == 0) s.check_all(); s.close(); mc::history(); mc::rewind_to(m0); }
}
inline void triples(uint64_t i) {
	static Tab T = tab("T"), R = tab("R"); mc::Radix r(i); size_t a = (size_t)r.take(cat.size()), b = mid[(size_t)r.take(mid.size())];
	Sess s; s.fill(T); s.fill(R);
	for (size_t j : last) { size_t m0 = mc::mark(); cat[a].run(s); cat[b].run(s); cat[j].run(s); for (auto *t : {&T, &R}) { auto x = s.m[t->name].rows; bool same = x.size() == t->rows.size(); for (size_t k = 0; same && k < x.size(); k++) same = canon(x[k]) == canon(t->rows[k]); if (!same) { s.del(t->name, nullptr); s.insert(t->name, t->rows); } } mc::history(); if (s.m.size() > 60) return; mc::rewind_to(m0); }
	s.close();
}
inline void add_seq(int kinds) { const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	cat = catalogue(); for (size_t i = 0; i < cat.size(); i++) { if (cat[i].kind & kinds) last.push_back(i); if (cat[i].kind == nm::REJ && i % 5 == 0) mid.push_back(i); }
	mc::add("in turn", fmt("every ordered pair of statements out of %zu over all column types (one of this property's %zu after any other, accepted or refused)", cat.size(), last.size()), cat.size(), pairs_);
	if (th) mc::add("in turn, refused between", fmt("every two of these statements with one of %zu refused ones between them, in sessions that go on", mid.size()), cat.size() * mid.size(), triples);
}
}
