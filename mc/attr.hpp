// Column attributes say what may be stored, not how statements read it: tables
// whose columns are keys, unique, indexed, numbered or mandatory hold duplicates
// and give the same results as tables without.
#pragma once
#include "names.hpp"
namespace at {
using namespace sq; using namespace nm;
struct A { const char *att, *cl; bool nn; };
inline const vector<A> &atts() { static vector<A> a = {{"NOT NULL", "", true}, {"NULL", "", false}, {"UNIQUE", "", false}, {"PRIMARY KEY", "", true}, {"AUTO_INCREMENT", "", false}, {"UNIQUE AUTO_INCREMENT NOT NULL", "", true}, {"", ", PRIMARY KEY(%k)", true}, {"", ", INDEX(%k)", false}, {"UNIQUE", ", PRIMARY KEY(%k, %y), INDEX(%k)", true}}; return a; }
inline const vector<vector<Val>> &vals() { static vector<vector<Val>> v = {{Int(5), Int(7), Int(-5)}, {Str("abc"), Str("abd"), Str("ab")}, {Dbl(1.5), Dbl(1.25), Dbl(-1.5)}, {Tiny(true), Tiny(false), Tiny(true)}, {Date("2024-02-29"), Date("2023-02-28"), Date("1931-12-01")}, {DTime("2024-02-29 13:14:15"), DTime("2024-02-29 13:14:16"), DTime("1931-12-01 00:00:00")}}; return v; }
static int mask;
inline void run(uint64_t i) {
	mc::Radix r(i); const A &a = atts()[(size_t)r.take(atts().size())]; auto &v = vals()[(size_t)r.take(6)]; int pos = (int)r.take(3), side = (int)r.take(3), ty = v[0].ty;
	auto mk = [&](const char *name, const string &p, bool with) { Tab t; t.name = name; string k = p + "k", y = p + "y"; bool both = with && strstr(a.cl, "%y");
		vector<Col> c = {C(p + "x"), C(y, ty, 16)}; Col kc = C(k, ty, 16); if (with) { kc.attrs = a.att; if (!strncmp(a.att, "NOT NULL", 8)) kc.attrs = a.att; string cl = a.cl; for (const char *w : {"%k", "%y"}) for (size_t q; (q = cl.find(w)) != string::npos;) cl.replace(q, 2, p + (w + 1)); t.clauses = cl; }
		c.insert(c.begin() + pos, kc); t.cols = c;
		for (int b = 0; b < 9; b++) { Row w; for (auto &col : t.cols) w.push_back(col.name == p + "x" ? Int(b) : col.name == k ? (b == 4 && !(with && a.nn) ? Nul(ty) : v[(size_t)(b * 5 % 7 % 3)]) : (b % 4 == 2 && !both ? Nul(ty) : v[(size_t)(b % 3)])); t.rows.push_back(w); }
		return t; };
	Tab T = mk("T", "", side != 1), R = mk("R", "r", side != 0); Tab S; S.name = "S"; S.cols = {C("sk", ty, 16), C("sx")}; S.rows = {{v[1], Int(1)}, {v[0], Int(2)}, {v[1], Int(3)}, {Nul(ty), Int(4)}}; bool tnn = side != 1 && a.nn, order = ty != VT_VARCHAR && ty != VT_TINYINT;
	auto one = [&](auto body) { size_t m0 = mc::mark(); Sess s; s.fill(T); s.fill(R); s.fill(S); s.del("T", cmp(EQ, F("x"), L(Int(3)))); s.del("R", cmp(EQ, F("rx"), L(Int(0)))); body(s); s.close(); mc::history(); mc::rewind_to(m0); };
	auto conds = [&] { vector<CP> c; for (int o = EQ; o <= (order ? GE : NE); o++) { for (auto &l : v) { c.push_back(cmp(o, F("k"), L(l))); c.push_back(cmp(o, L(l), F("k"))); } c.push_back(cmp(o, F("k"), F("y"))); } for (bool n : {false, true}) { c.push_back(in(F("k"), {v[0]}, n)); c.push_back(in(F("k"), {v[1], v[2]}, n)); c.push_back(isnull(F("k"), n)); c.push_back(bin(n ? Cond::OR : Cond::AND, cmp(EQ, F("k"), L(v[0])), cmp(NE, F("y"), L(v[1])))); } return c; };
	if (mask & (SEL | WH)) one([&](Sess &s) { s.select(star("T")); s.select(list("T", {"k"})); s.select(list("R", {"rx", "rk", "ry"})); if (mask & WH) for (auto &c : conds()) { s.select(list("T", {"x", "k"}, c)); } });
	if (mask & DEL) for (auto &c : conds()) one([&](Sess &s) { s.del("T", c); s.check("R"); s.insert("T", {T.rows[1], T.rows[1], T.rows[5]}); s.check("T"); });
	if (mask & UPD) { for (auto &c : conds()) one([&](Sess &s) { s.update("T", {{"k", v[1]}, {"y", v[0]}}, c); s.check("R"); s.update("T", {{"x", Int(5)}, {"k", v[0]}}, nullptr); }); if (!tnn) one([&](Sess &s) { s.update("T", {{"k", Nul(ty)}}, cmp(EQ, F("k"), L(v[0]))); }); else one([&](Sess &s) { s.err("UPDATE T SET k = NULL WHERE x = 1;"); s.check("T"); }); }
	if (mask & INS) one([&](Sess &s) { bool both = side != 1 && strstr(a.cl, "%y"); s.insert("T", {T.rows[0], T.rows[0], T.rows[1]}); s.check("T"); if (both) s.err("INSERT INTO T (k, x) VALUES (" + lit(v[0]) + ", 1);"); else s.insert("T", {{v[0], v[1]}, {v[0], Nul(ty)}, {v[0], v[1]}}, {"k", "y"}); s.check("T");
		if (!tnn) { s.insert("T", {{Int(70)}, {Int(70)}}, {"x"}); s.insert("T", {{Int(71), Nul(ty)}}, {"x", "k"}); } else { s.err("INSERT INTO T (x) VALUES (70);"); s.err("INSERT INTO T (x, k, y) VALUES (70, NULL, " + lit(v[0]) + ");"); } s.check("T"); s.check("R"); });
	if (mask & GRP) one([&](Sess &s) { From f; f.table = "T"; for (int g = 0; g < 4; g++) { Sel q; q.from = {f}; q.count = g != 1; if (g < 2) q.items = q.group = {F("k")}; else if (g == 2) { q.items = {F("y"), F("k")}; q.group = {F("k"), F("y")}; } else q.where = cmp(EQ, F("k"), L(v[0])); s.select(q); } });
	if (mask & JN) one([&](Sess &s) { auto fr = [](const char *t, int j) { From f; f.table = t; f.join = j; return f; };
		for (int j = 0; j < 3; j++) for (int turn = 0; turn < 2; turn++) for (int o = EQ; o <= (order ? GE : NE); o++) for (int side2 = 0; side2 < 2; side2++) { CP on = side2 ? cmp(o, F("rk"), F("k")) : cmp(o, F("k"), F("rk")); Sel q; q.from = turn ? vector<From>{fr("R", 0), fr("T", j)} : vector<From>{fr("T", 0), fr("R", j)}; if (j) q.from[1].on = on; else q.where = on; q.items = {F("x"), F("rx"), F("k"), F("rk")}; s.select(q); }
		for (int turn = 0; turn < 3; turn++) { static const char *const N[] = {"T", "R", "S"}; static const char *const K[] = {"k", "rk", "sk"}; Sel q; q.from = {fr(N[turn], 0), fr(N[(turn + 1) % 3], 1), fr(N[(turn + 2) % 3], 1)}; q.from[1].on = cmp(EQ, F(K[turn]), F(K[(turn + 1) % 3])); q.from[2].on = cmp(EQ, F(K[(turn + 1) % 3]), F(K[(turn + 2) % 3])); q.items = {F("x"), F("rx"), F("sx")}; s.select(q); q.where = cmp(EQ, F("k"), L(v[0])); s.select(q); }
		Sel q; q.from = {fr("T", 0), fr("S", 1)}; q.from[1].on = bin(Cond::AND, cmp(EQ, F("k"), F("sk")), cmp(EQ, F("k"), L(v[0]))); q.items = {F("x"), F("sx")}; s.select(q); });
}
inline void add_attr(int kinds) { mask = kinds;
	mc::add("attributes", "key, unique, indexed, numbered, mandatory and optional columns of every type at every place (in one table or both), holding duplicates", atts().size() * 6 * 9, run); }
}
