// C22: databases, and results that are still open, do not notice one another
#include "../seq.hpp"
using namespace mc; using namespace sq;
// the tables of the catalogue with their columns the other way round, one more in front, and other rows
static Tab other(const string &name) {
	Tab t = seq::tab(name), o; o.name = name; o.cols = {C(name == "R" ? "rzz" : "zz", VT_DOUBLE)}; for (size_t i = t.cols.size(); i-- > 0;) { Col c = t.cols[i]; if (c.ty == VT_VARCHAR) c.prec = 40; o.cols.push_back(c); }
	for (size_t r = 0; r < t.rows.size() + 2; r++) { Row x = {Dbl(r + 0.5)}; const Row &y = t.rows[(r * 3 + 1) % t.rows.size()]; for (size_t i = t.cols.size(); i-- > 0;) x.push_back(i ? y[i] : Int((int)r)); o.rows.push_back(x); }
	return o;
}
static vector<seq::St> cat; static vector<size_t> reads; static Tab T1, R1, T2, R2;
static void fill1(Sess &s) { s.fill(T1); s.fill(R1); } static void fill2(Sess &s) { s.fill(R2); s.fill(T2); }
static void side(uint64_t i) {
	for (size_t j = i % 2; j < cat.size(); j += thorough() ? 1 : 2) { size_t m = mark();
		{ auto a = std::make_unique<Sess>(), b = std::make_unique<Sess>(); a->tag = "(1) "; b->tag = "(2) "; fill1(*a); fill2(*b);
		cat[i].run(*a); cat[j].run(*b); cat[i].run(*a); if (j % 4 == 0) { a->check_all(); b->check_all(); }
		if (j & 1) { a->close(); note("(1) closed"); cat[i].run(*b); b->check_all(); b->close(); } else { b->close(); note("(2) closed"); cat[j].run(*a); a->check_all(); a->close(); } }
		history(); rewind_to(m); }
}
// the life of a database, in six steps
static void life(Sess *&s, int k, int v, const char *tag) {
	switch (k) {
	case 0: s = new Sess(); s->tag = tag; break;
	case 1: s->create(v & 1 ? T2 : T1); s->check_schema("T"); break;
	case 2: s->insert("T", v & 1 ? T2.rows : T1.rows); s->check("T"); break;
	case 3: if (v & 2) s->del("T", in(F("id"), {Int(1), Int(2)})); else s->update("T", {{"v", Str("u")}, {"i2", Nul()}, {"t", DTime("2001-01-01 01:01:01")}}, cmp(GE, F("id"), L(Int(2)))); break;
	case 4: if (v & 4) s->select(star("T", cmp(NE, F("v"), L(Str("u"))))); else { Sel q; From f; f.table = "T"; q.from = {f}; q.items = {F("v")}; q.group = {F("v")}; q.count = true; s->select(q); } break;
	default: s->check_all(); s->close(); delete s; s = nullptr; }
}
int main(int argc, char **argv) {
	cat = seq::catalogue(); for (size_t i = 0; i < cat.size(); i++) if (cat[i].kind & (nm::SEL | nm::WH | nm::GRP | nm::JN)) reads.push_back(i);
	T1 = seq::tab("T"); R1 = seq::tab("R"); T2 = other("T"); R2 = other("R");
	add("side by side", fmt("every statement of %zu on one database with every %sother one on a second database, whose tables have the same names but other columns; then one is closed and the other goes on", cat.size(), getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? "" : "second "), cat.size(), side, 4);
	static vector<int> orders; for (int b = 0; b < 4096; b++) if (__builtin_popcount((unsigned)b) == 6) orders.push_back(b);
	add("lives", "two databases opened, filled, changed, asked and closed: every interleaving of the six steps of each, in every combination of eight variants", orders.size() * 64, [](uint64_t i) { Radix r(i); int va = (int)r.take(8), vb = (int)r.take(8), o = orders[r.v]; Sess *a = nullptr, *b = nullptr; int x = 0, y = 0; for (int k = 0; k < 12; k++) if (o >> k & 1) life(a, x++, va, "(1) "); else life(b, y++, vb, "(2) "); history(); });
	static vector<int> o3; for (int k = 0; k < 729; k++) { int c[3] = {0, 0, 0}, x = k; for (int j = 0; j < 6; j++, x /= 3) c[x % 3]++; if (c[0] == 2 && c[1] == 2 && c[2] == 2) o3.push_back(k); }
	add("three lives", "three databases, each opened and filled, then asked, changed and closed: every interleaving of these, in every combination of four variants", o3.size() * 64, [](uint64_t i) { Radix r(i); int v[3] = {(int)r.take(4), (int)r.take(4) + 4, (int)r.take(4)}, o = o3[r.v], at[3] = {0, 0, 0}; Sess *s[3] = {nullptr, nullptr, nullptr}; static const char *const tag[] = {"(1) ", "(2) ", "(3) "}; for (int k = 0; k < 6; k++, o /= 3) { int d = o % 3; for (int j = 0; j < 3; j++) life(s[d], at[d]++, v[d], tag[d]); } history(); });
	// a result is what the statement found, whatever happens before it is read
	add("open results", fmt("every one of %zu queries, its result read up to the first, the second or the last row, then any of %zu statements, on the same database or on another, then the rest read", reads.size(), cat.size()), reads.size() * 3, [](uint64_t i) { Radix r(i); int at = (int)r.take(3); size_t x = reads[r.v]; if (at == 2) at = 4;
		for (size_t j = 0; j < cat.size(); j++) { if (!thorough() && at && (j + x) % 3) continue; size_t m = mark(); auto a = std::make_unique<Sess>(), b = std::make_unique<Sess>(); bool same = thorough() || j % 5; fill1(*a); if (!same) fill2(*b); bool hit = false; a->pause_at = at; a->pause = [&] { note("(the result is held open)"); hit = true; if (same) { cat[j].run(*a); } else { b->tag = "(2) "; cat[j].run(*b); } note("(and read on)"); };
			cat[x].run(*a); a->pause = nullptr; if (hit) history(); if (j % 8 == 0) a->check_all(); a->close(); b->close(); rewind_to(m); if (!hit) break; } }, 4);
	add("results outlive", fmt("every one of %zu queries, the database closed, or its tables emptied and filled again, before its result is read", reads.size()), reads.size(), [](uint64_t i) { size_t x = reads[i];
		for (int k = 0; k < 4; k++) { Sess a; fill1(a); a.pause_at = k & 1; a.pause = [&] { if (k & 2) { note("(closed)"); a.close(); return; } for (int n = 0; n < 3; n++) { a.del("T", nullptr); a.del("R", nullptr); a.insert("R", R1.rows); a.insert("T", T1.rows); a.insert("T", T1.rows); } a.update("T", {{"v", Nul(VT_VARCHAR)}, {"i", Int(77)}}, nullptr); }; cat[x].run(a); if (a.db) a.close(); history(); } }, 8);
	add("reopened", fmt("after any of %zu statements and the end of its database, a new one is empty, takes the same tables and gives the statement the same outcome", cat.size()), cat.size(), [](uint64_t i) { for (int k = 0; k < 3; k++) { Sess s; s.check_all(); s.err("SELECT * FROM T;"); s.err("INSERT INTO R (id) VALUES (1);"); if (k == 1) fill2(s); else fill1(s); cat[i].run(s); if (k < 2) { Sess u; u.tag = "(2) "; u.check_all(); if (k) { fill1(u); u.check_all(); } u.close(); } s.check_all(); s.close(); note("closed"); history(); } });
	add("many", "up to 64 databases open at a time, each with as many tables as its number, closed in four orders", 24 * 4, [](uint64_t i) { int n = (int)(i / 4) < 16 ? (int)(i / 4) + 1 : 16 + ((int)(i / 4) - 15) * 6, how = (int)(i % 4); vector<std::unique_ptr<Sess>> s; auto use = [&](int d) { string t = fmt("t%d", d % 5); Sess &x = *s[(size_t)d]; if (!x.m.count(t)) return; x.insert(t, {{Int(d), Str(fmt("row of %d", d))}}); x.check(t); x.select(star(t, cmp(EQ, F("i"), L(Int(d))))); };
		for (int d = 0; d < n; d++) { s.emplace_back(new Sess()); s[(size_t)d]->quiet = true; for (int t = 0; t < d % 20 + 1; t++) { Tab x; x.name = fmt("t%d", t); x.cols = (d + t) & 1 ? vector<Col>{C("i"), C("v", VT_VARCHAR, 30)} : vector<Col>{C("i"), C("v", VT_VARCHAR, 20 + d)}; s[(size_t)d]->create(x); } use(d); use(d / 2); }
		vector<int> o; for (int d = 0; d < n; d++) o.push_back(how == 0 ? d : how == 1 ? n - 1 - d : how == 2 ? (d * 2 < n ? d * 2 : (d - (n + 1) / 2) * 2 + 1) : (d & 1 ? n - 1 - d / 2 : d / 2));
		vector<bool> gone((size_t)n); for (int k = 0; k < n; k++) { s[(size_t)o[(size_t)k]]->check_all(); s[(size_t)o[(size_t)k]]->close(); gone[(size_t)o[(size_t)k]] = true; for (int d = 0; d < n; d += 1 + n / 4) if (!gone[(size_t)d]) { use(d); s[(size_t)d]->check_all(); } } history(); });
	return mc::run(argc, argv, {"C22", "model_checking", nullptr, {"threads on different databases are part of C20"}});
}
