// C01: histories of statements against the relational model: every history up to
// a depth, histories that reach the same stored state being continued once
#include "../attr.hpp"
#include "../big.hpp"
#include <unordered_map>
using namespace sq; using namespace mc;
typedef std::function<void(Sess &)> Act;
static From f(const string &t, int join = 0, CP on = nullptr) { From x; x.table = t; x.join = join; x.on = on; return x; }
struct World { string name; std::function<void(Sess &)> start; vector<Act> acts; int depth; };
static uint64_t layout(Sess &s) { uint64_t h = 7; for (auto &p : s.m) { void *t = vdb_table(s.db, p.first.c_str()); if (!t) fail("table " + p.first + " is gone"); h = mix(h, hash_str(p.first)); h = mix(h, vt_hash(t)); } return h; }
static void explore(const World &w, const vector<int> &prefix) {
	std::unordered_map<uint64_t, int> seen; vector<int> seq;
	std::function<void(int)> rec = [&](int left) {
		size_t m = mark(); uint64_t h;
		{ Sess s; w.start(s); for (size_t k = 0; k < seq.size(); k++) { w.acts[seq[k]](s); if (k + 1 == seq.size()) s.check_all(); } h = layout(s); s.close(); }
		history(); rewind_to(m); state(h);
		if (!left) return; auto it = seen.find(h); if (it != seen.end() && it->second >= left) return; seen[h] = left;
		for (size_t a = 0; a < w.acts.size(); a++) { seq.push_back((int)a); rec(left - 1); seq.pop_back(); }
	};
	for (size_t k = 0; k < prefix.size(); k++) seq.push_back(prefix[k]);
	rec(w.depth - (int)seq.size());
}
static vector<World> worlds;
// 8 rows to a page; the first rows are put in by the storage layer (C14), to save time
static Tab fat() { return wide("W", 58); }
static void prefill(Sess &s, const Tab &W, int n) { void *T = vdb_table(s.db, "W"); for (int i = 0; i < n; i++) { Row r = wide_row(W, i); vector<vcell> c; for (auto &v : r) { vcell x; memset(&x, 0, sizeof x); x.null = v.null; x.type = v.ty; x.i = v.i; x.d = v.d; x.s = v.s.c_str(); x.slen = (int)v.s.size(); c.push_back(x); } if (!rt_insert(T, c.data())) fail("table_insert_row failed"); s.m["W"].rows.push_back(r); } }
static Row few(int64_t id) { return {Int(id), Str(fmt("f%d", (int)id)), Dbl(id)}; } static const vector<string> fewc = {"id", "c2", "c1"};
static void create(Sess &s, const Tab &t) { if (s.m.count(t.name)) { s.err(t.create()); } else s.create(t); }
static void insert(Sess &s, const string &t, const vector<Row> &r, const vector<string> &c = {}) { if (s.m.count(t)) s.insert(t, r, c); else s.err(insert_sql(t, r, c)); }
static void update(Sess &s, const string &t, const Asgn &a, CP c) { if (s.m.count(t)) s.update(t, a, c); else s.err(update_sql(t, a, c)); }
static void del(Sess &s, const string &t, CP c) { if (s.m.count(t)) s.del(t, c); else s.err(delete_sql(t, c)); }
static void sel(Sess &s, const Sel &q) { for (auto &x : q.from) if (!s.m.count(x.table)) { s.err(select_sql(q)); return; } s.select(q); }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	Tab T; T.name = "T"; T.cols = {C("id"), C("s", VT_VARCHAR, 12)}; Tab U; U.name = "U"; U.cols = {C("d", VT_DOUBLE), C("k"), C("b", VT_TINYINT)};
	Sel join; join.star = true; join.from = {f("T"), f("U", 1, cmp(EQ, F("id"), F("k")))}; Sel grp; grp.items = {F("s")}; grp.count = true; grp.group = {F("s")}; grp.from = {f("T")};
	{ World w; w.name = "two tables"; w.depth = th ? 6 : 5; w.start = [](Sess &) {};
	  w.acts = { [=](Sess &s) { create(s, T); }, [=](Sess &s) { create(s, U); },
		[=](Sess &s) { int64_t n = s.m.count("T") ? (int64_t)s.m["T"].rows.size() : 0; insert(s, "T", {{Int(n), Str(fmt("r%d", (int)n))}}); },
		[=](Sess &s) { insert(s, "T", {{Str("two"), Int(2)}, {Nul(VT_VARCHAR), Int(1)}}, {"s", "id"}); },
		[=](Sess &s) { insert(s, "U", {{Dbl(0.5), Int(1), Tiny(true)}}); }, [=](Sess &s) { insert(s, "U", {{Int(2)}}, {"k"}); },
		[=](Sess &s) { update(s, "T", {{"s", Str("upd")}}, cmp(EQ, F("id"), L(Int(1)))); }, [=](Sess &s) { update(s, "T", {{"id", Int(0)}, {"s", Nul(VT_VARCHAR)}}, cmp(EQ, F("s"), L(Str("two")))); }, [=](Sess &s) { update(s, "U", {{"d", Dbl(-1)}, {"b", Tiny(false)}}, nullptr); },
		[=](Sess &s) { del(s, "T", cmp(EQ, F("id"), L(Int(1)))); }, [=](Sess &s) { del(s, "T", nullptr); }, [=](Sess &s) { del(s, "U", isnull(F("d"))); },
		[=](Sess &s) { sel(s, join); }, [=](Sess &s) { sel(s, star("T", isnull(F("s"), true))); }, [=](Sess &s) { sel(s, grp); },
		[=](Sess &s) { s.err("INSERT INTO T VALUES (1, 'x'), (2, 'far too long a text');"); } };
	  worlds.push_back(w); }
	for (int pre : {7, 8, 15, 16}) { Tab W = fat();
	  World w; w.name = fmt("a page boundary, %d rows", pre); w.depth = th ? 5 : pre == 7 ? 4 : 3; w.start = [=](Sess &s) { s.create(W); prefill(s, W, pre); };
	  w.acts = { [=](Sess &s) { s.insert("W", {few(100 + (int64_t)s.m["W"].rows.size())}, fewc); }, [=](Sess &s) { s.insert("W", {few(50), few(51)}, fewc); },
		[=](Sess &s) { s.del("W", cmp(EQ, F("id"), L(Int(0)))); }, [=](Sess &s) { s.del("W", cmp(GE, F("id"), L(Int(pre - 1)))); }, [=](Sess &s) { s.del("W", cmp(LT, F("id"), L(Int(8)))); }, [=](Sess &s) { s.del("W", nullptr); },
		[=](Sess &s) { s.update("W", {{"c2", Str("upd")}, {"c0", Nul()}}, cmp(GE, F("id"), L(Int(7)))); }, [=](Sess &s) { s.update("W", {{"id", Int(7)}}, cmp(EQ, F("id"), L(Int(1)))); },
		[=](Sess &s) { s.select(list("W", {"c57", "c2", "id", "c1"})); }, [=](Sess &s) { s.select(list("W", {"c2", "id"}, cmp(NE, F("id"), L(Int(7))))); },
		[=](Sess &s) { Sel q; q.count = true; q.from = {f("W")}; s.select(q); } };
	  worlds.push_back(w); }
	{ World w; w.name = "three tables, joined"; w.depth = th ? 5 : 4; Tab A, B, D; A.name = "A"; A.cols = {C("x"), C("s", VT_VARCHAR)}; B.name = "B"; B.cols = {C("x"), C("y")}; D.name = "D"; D.cols = {C("y"), C("t", VT_VARCHAR)};
	  w.start = [=](Sess &s) { s.create(A); s.create(B); s.create(D); s.insert("A", {{Int(1), Str("a1")}, {Int(2), Str("a2")}}); s.insert("B", {{Int(1), Int(10)}, {Int(2), Int(20)}}); s.insert("D", {{Int(10), Str("d10")}}); };
	  Sel j3; j3.items = {F("t"), F("s"), F("x", "B")}; j3.from = {f("A"), f("B", 1, cmp(EQ, F("x", "A"), F("x", "B"))), f("D", 2, cmp(EQ, F("y", "B"), F("y", "D")))}; Sel c3 = j3; c3.from = {f("D"), f("A"), f("B")}; c3.where = bin(Cond::AND, cmp(EQ, F("x", "A"), F("x", "B")), cmp(NE, F("y", "B"), F("y", "D"))); Sel g; g.items = {F("x", "B")}; g.group = {F("x", "B")}; g.count = true; g.from = {f("A"), f("B", 1, cmp(LE, F("x", "A"), F("x", "B")))};
	  w.acts = { [=](Sess &s) { s.insert("A", {{Int(1), Nul(VT_VARCHAR)}}); }, [=](Sess &s) { s.insert("B", {{Int(2), Int(10)}, {Nul(), Int(20)}}); }, [=](Sess &s) { s.insert("D", {{Int(20), Str("d20")}}); }, [=](Sess &s) { s.update("B", {{"y", Int(10)}}, cmp(EQ, F("x"), L(Int(2)))); }, [=](Sess &s) { s.update("A", {{"x", Nul()}, {"s", Str("gone")}}, cmp(EQ, F("x"), L(Int(1)))); }, [=](Sess &s) { s.update("D", {{"t", Str("new")}}, nullptr); },
		[=](Sess &s) { s.del("A", cmp(EQ, F("x"), L(Int(2)))); }, [=](Sess &s) { s.del("B", cmp(LT, F("y"), L(Int(20)))); }, [=](Sess &s) { s.del("D", nullptr); }, [=](Sess &s) { s.select(j3); }, [=](Sess &s) { s.select(c3); }, [=](Sess &s) { s.select(g); } };
	  worlds.push_back(w); }
	for (size_t k = 0; k < worlds.size(); k++) { auto &w = worlds[k]; uint64_t n = w.acts.size();
		add(w.name, fmt("every history of up to %d statements out of %zu", w.depth, w.acts.size()), 1 + n * n, [k, n](uint64_t i) { auto &w = worlds[k]; if (i == 0) { for (size_t a = 0; a < n; a++) { Sess s; w.start(s); w.acts[a](s); s.check_all(); s.close(); } return; } i--; explore(w, {(int)(i / n), (int)(i % n)}); }, 1); }
	// long histories: a fixed cycle of statements repeated, from every starting point
	add("long", "histories of hundreds of statements: cycles of every three different operations on one table, repeated until several pages were used", 5 * 5 * 5, [](uint64_t i) {
		Radix r(i); int a[3] = {(int)r.take(5), (int)r.take(5), (int)r.take(5)}; Sess s; Tab W = fat(); s.create(W); int64_t id = 0; s.insert("W", {wide_row(W, id++)});
		for (int rep = 0; rep < (thorough() ? 60 : 20); rep++) for (int k = 0; k < 3; k++) switch (a[k]) {
		case 0: s.insert("W", {wide_row(W, id), wide_row(W, id + 1), wide_row(W, id + 2)}); id += 3; break;
		case 1: s.del("W", cmp(EQ, F("id"), L(Int(rep * 2)))); break;
		case 2: s.update("W", {{"c2", Str(fmt("v%d", rep))}, {"c1", rep % 2 ? Dbl(rep) : Nul(VT_DOUBLE)}}, cmp(GE, F("id"), L(Int(rep)))); break;
		case 3: s.del("W", cmp(LE, F("id"), L(Int(rep)))); s.insert("W", {wide_row(W, id++)}); break;
		default: s.select(star("W", cmp(NE, F("id"), L(Int(rep))))); s.check("W"); }
		s.check_all(); s.close(); history(); }, 1);
	at::add_attr(nm::SEL | nm::WH | nm::INS);
	big::add_big(nm::SEL);
	return mc::run(argc, argv, {"C01", "model_checking", nullptr, {"histories that reach the same layout of slots, flags and live values are continued once (the content of deleted slots is not part of it)"}});
}
