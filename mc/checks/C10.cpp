// C10: every rule, broken and kept at every place of a statement, in several states
#include "../seq.hpp"
#include <memory>
using namespace sq; using namespace mc;
// two columns of every type; the second of each pair is NOT NULL
static const struct { const char *n; int ty; bool nn; } COLS[] = { {"i", VT_INTEGER, 0}, {"j", VT_INTEGER, 1}, {"v", VT_VARCHAR, 0}, {"w", VT_VARCHAR, 1}, {"d", VT_DOUBLE, 0}, {"e", VT_DOUBLE, 1}, {"b", VT_TINYINT, 0}, {"c", VT_TINYINT, 1}, {"p", VT_DATE, 0}, {"q", VT_DATE, 1}, {"s", VT_DATETIME, 0}, {"t", VT_DATETIME, 1} };
static const int NC = 12;
static const char *const GOOD[] = {"1", "'abc'", "TRUE", "1.5", "'2024-02-29'", "'2024-02-29 10:11:12'"}; // by VT_
static string good(int ty) { static const int ix[] = {1, 0, 2, 3, 4, 5}; return GOOD[ix[ty]]; }
static Val goodv(int ty) { switch (ty) { case VT_VARCHAR: return Str("abc"); case VT_INTEGER: return Int(1); case VT_TINYINT: return Tiny(true); case VT_DOUBLE: return Dbl(1.5); case VT_DATE: return Date("2024-02-29"); default: return DTime("2024-02-29 10:11:12"); } }
static Tab mainT() { Tab t; t.name = "T"; for (auto &k : COLS) t.cols.push_back(C(k.n, k.ty, 6, k.nn)); return t; }
struct State_ { const char *what; int rows; bool del; };
static const State_ ST[] = { {"no rows", 0, false}, {"one row", 1, false}, {"rows and deleted rows on two pages", 60, true} };
static Row row(int k) { Row r; for (auto &c : COLS) { if (!c.nn && k % 3 == 2) { r.push_back(Nul(c.ty)); continue; } r.push_back(c.ty == VT_INTEGER ? Int(k) : c.ty == VT_VARCHAR ? Str(fmt("r%d", k)) : goodv(c.ty)); } return r; }
struct Db_ { Sess s; uint64_t h0; string before;
	Db_(int st) { s.quiet = true; s.create(mainT()); Tab u; u.name = "U"; u.cols = {C("i"), C("k", VT_INTEGER, 8, true), C("x", VT_VARCHAR, 6)}; s.create(u); Tab z; z.name = "E"; z.cols = {C("only")}; s.create(z); vector<Row> r; for (int k = 0; k < ST[st].rows; k++) r.push_back(row(k)); if (!r.empty()) { s.insert("T", r); s.insert("U", {{Int(1), Int(1), Str("u")}, {Nul(), Int(2), Nul(VT_VARCHAR)}}); } if (ST[st].del) { s.del("T", cmp(GE, F("i"), L(Int(50)))); s.del("T", cmp(EQ, F("j"), L(Int(0)))); } s.quiet = false; h0 = hash(); }
	uint64_t hash() { uint64_t h = 1; static char names[16][160]; h = mix(h, (uint64_t)vdb_tables(s.db, names, 16)); for (auto &p : s.m) { void *t = vdb_table(s.db, p.first.c_str()); if (!t) fail("table " + p.first + " is gone"); h = mix(h, vt_hash(t)); } return h; }
	void refuse(const string &sql) { size_t m = mark(); Got g = s.exec(sql); if (g.status != VS_ERROR) fail(fmt("the statement breaks a rule but has status %d (%zu rows affected)", g.status, g.naff)); if (g.msg.empty()) fail("an error without a message"); if (vf_locks_held) fail("a lock is held after the error"); if (hash() != h0) fail("a refused statement changed a table"); history(); rewind_to(m); }
	Got allow(const string &sql) { Got g = s.exec(sql); if (g.status == VS_ERROR) fail("the statement breaks no rule but is refused: " + g.msg); history(); return g; }
};
// one database per process and state for statements that leave it as it is
static Db_ &shared(int st) { static std::unique_ptr<Db_> d[3]; if (!d[st]) d[st].reset(new Db_(st)); return *d[st]; }
static void verdict(int st, const string &sql, bool valid) { // valid statements are run on a database of their own
	if (!valid) { shared(st).refuse(sql); return; } size_t m = mark(); if (!strncmp(sql.c_str(), "SELECT", 6)) { Db_ &d = shared(st); d.allow(sql); if (d.hash() != d.h0) fail("a SELECT changed a table"); } else { Db_ d(st); d.allow(sql); d.s.close(); } rewind_to(m); }
// ---------------------------------------------------------------- values
// k: what a literal is; ok(type): which columns take it
struct Lit { const char *sql; char k; }; // I int D double B bool V text(5) L text too long P date S datetime N null X never valid
static const Lit LITS[] = { {"7", 'I'}, {"-9223372036854775808", 'I'}, {"9223372036854775807", 'I'}, {"1.5", 'D'}, {"-1e300", 'D'}, {".5", 'D'}, {"TRUE", 'B'}, {"FALSE", 'B'}, {"UNKNOWN", 'X'}, {"'ab'", 'V'}, {"''", 'V'}, {"'12345'", 'V'}, {"'123456'", 'L'}, {"'a much longer text than that'", 'L'}, {"'2024-02-29'", 'P'}, {"'2023-12-31'", 'P'}, {"'2024-02-29 23:59:59'", 'S'}, {"NULL", 'N'},
	{"'2023-02-29'", 'L'}, {"'2024-13-01'", 'L'}, {"'2024-00-01'", 'L'}, {"'2024-01-00'", 'L'}, {"'2024-04-31'", 'L'}, {"'2024-01-32'", 'L'}, {"'2100-02-29'", 'L'}, {"'2024-01-01x'", 'L'}, {"'01-02-2024'", 'L'}, {"'2024/01/01'", 'L'}, {"'2024-01-01 24:00:00'", 'L'}, {"'2024-01-01 10:60:00'", 'L'}, {"'2024-01-01 10:00'", 'L'}, {"'2024-01-01 10:00:00 x'", 'L'}, {"'2023-02-29 10:00:00'", 'L'}, {"'2024-01-01T10:00:00'", 'L'}, {"'12:00:00'", 'L'},
	{"9223372036854775808", 'X'}, {"-9223372036854775809", 'X'}, {"1e999", 'X'} };
static const int NL = sizeof LITS / sizeof *LITS;
static bool fits(int c, const Lit &l) { switch (l.k) { case 'I': return COLS[c].ty == VT_INTEGER; case 'D': return COLS[c].ty == VT_DOUBLE; case 'B': return COLS[c].ty == VT_TINYINT; case 'V': return COLS[c].ty == VT_VARCHAR; case 'P': return COLS[c].ty == VT_DATE; case 'S': return COLS[c].ty == VT_DATETIME; case 'N': return !COLS[c].nn; default: return false; } }
struct Ex { const char *sql; char k; }; // arithmetic in VALUES: I D or X (refused) or Z (null)
static const Ex EXS[] = { {"1+1", 'I'}, {"-(3)", 'I'}, {"2*3-4/2%5", 'I'}, {"1/0", 'Z'}, {"1.5*2.0", 'D'}, {"1.0/0.0", 'Y'}, {"1+1.5", 'X'}, {"TRUE+1", 'X'}, {"'a'+1", 'X'}, {"1-'a'", 'X'}, {"NULL+1", 'X'}, {"-'a'", 'X'}, {"-TRUE", 'X'}, {"9223372036854775807+1", 'X'}, {"-9223372036854775808-1", 'X'}, {"4611686018427387904*2", 'X'}, {"-9223372036854775808/-1", 'X'}, {"-(-9223372036854775808)", 'X'}, {"1e308*10.0", 'X'}, {"(1+TRUE)*0", 'X'} };
static const int NE_ = sizeof EXS / sizeof *EXS;
static string cols_of(const vector<int> &c) { string s; for (int k : c) s += string(s.empty() ? "" : ", ") + COLS[k].n; return s; }
// ---------------------------------------------------------------- conditions
struct O { string sql; char k; int ty; }; // k: f field, l literal, n NULL, u unknown; text literals: ty VT_VARCHAR with the date type they denote
static vector<O> opds() { vector<O> r; for (int c = 0; c < NC; c++) r.push_back({COLS[c].n, 'f', COLS[c].ty}); r.push_back({"nope", 'u', 0}); r.push_back({"3", 'l', VT_INTEGER}); r.push_back({"1.5", 'l', VT_DOUBLE}); r.push_back({"TRUE", 'l', VT_TINYINT}); r.push_back({"'abc'", 'l', VT_VARCHAR}); r.push_back({"'2024-02-29'", 'l', VT_DATE}); r.push_back({"'2024-02-29 10:11:12'", 'l', VT_DATETIME}); r.push_back({"'2024-02-30'", 'l', VT_VARCHAR}); r.push_back({"NULL", 'n', 0}); return r; }
static const vector<O> OP = opds();
static const char *const CMPS[] = {"=", "<>", "!=", "<", "<=", ">", ">="};
static bool text(const O &o) { return o.k == 'l' && (o.ty == VT_VARCHAR || o.ty == VT_DATE || o.ty == VT_DATETIME); }
static bool cmpok(const O &x, const O &y, int op) {
	bool eq = op < 3; if (x.k == 'u' || y.k == 'u') return false; if (x.k == 'n' || y.k == 'n') return eq;
	if (text(x) && text(y)) return eq;
	if (x.k == 'f' && text(y)) { if (x.ty == VT_VARCHAR) return eq; return x.ty == y.ty && x.ty != VT_VARCHAR; }
	if (y.k == 'f' && text(x)) return cmpok(y, x, op);
	if (x.ty != y.ty) return false; return x.ty != VT_VARCHAR || eq;
}
// places a condition can stand in: %s is the condition
static const char *const CTX[] = {"SELECT i FROM T WHERE %s;", "DELETE FROM T WHERE %s;", "UPDATE T SET i = 5 WHERE %s;", "SELECT COUNT(*) FROM T WHERE j = 99 AND %s;", "SELECT j FROM T WHERE j = j OR (i = 1 XOR %s);", "DELETE FROM T WHERE j = 99 AND (%s);", "UPDATE T SET v = NULL WHERE %s OR i = 3;", "SELECT T.j, k FROM T JOIN U ON %s;", "SELECT T.j, COUNT(*) FROM T, U WHERE k = T.j AND %s GROUP BY T.j;", "DELETE FROM T WHERE i = 1 XOR ((%s) AND b = TRUE);"};
static const int NCTX = 10;
static bool joined(int c) { return c == 7 || c == 8; }
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static bool TH; TH = th;
	add("values", fmt("INSERT and UPDATE: each of %d literals and %d expressions for each of the %d columns, in the first, middle or last of three rows, with and without a column list, in every state", NL, NE_, NC), (NL + NE_) * NC, [](uint64_t i) {
		int l = (int)(i % (NL + NE_)), c = (int)(i / (NL + NE_)); bool ex = l >= NL; string v = ex ? EXS[l - NL].sql : LITS[l].sql; char k = ex ? EXS[l - NL].k : LITS[l].k;
		bool ok = ex ? (k == 'I' || k == 'Z' ? COLS[c].ty == VT_INTEGER : k == 'D' || k == 'Y' ? COLS[c].ty == VT_DOUBLE : false) && !((k == 'Z' || k == 'Y') && COLS[c].nn) : fits(c, LITS[l]);
		if (ex && (k == 'Z' || k == 'Y') && COLS[c].nn && COLS[c].ty == (k == 'Z' ? VT_INTEGER : VT_DOUBLE)) ok = false;
		for (int st = 0; st < 3; st++) { for (int r = 0; r < 3; r++) for (int list = 0; list < 2; list++) { string sql = "INSERT INTO T"; if (list) { vector<int> o; for (int x = 0; x < NC; x++) o.push_back((x * 5 + 3) % NC); sql += " (" + cols_of(o) + ")"; } sql += " VALUES "; for (int y = 0; y < 3; y++) { sql += y ? ", (" : "("; for (int x = 0; x < NC; x++) { int cc = list ? (x * 5 + 3) % NC : x; sql += (x ? ", " : "") + (y == r && cc == c ? v : good(COLS[cc].ty)); } sql += ")"; } verdict(st, sql + ";", ok); }
			if (!ex) { verdict(st, string("UPDATE T SET ") + COLS[c].n + " = " + v + ";", ok); verdict(st, string("UPDATE T SET i = 3, ") + COLS[c].n + " = " + v + ", e = 2.5 WHERE j = 1;", ok); verdict(st, string("UPDATE T SET ") + COLS[c].n + " = " + v + " WHERE j = 99 AND i = 98;", ok); } else if (!ok || k == 'I' || k == 'D' || k == 'Z' || k == 'Y') verdict(st, string("UPDATE T SET ") + COLS[c].n + " = " + v + ";", false); } }, 4);
	add("two values", "INSERT of two rows and UPDATE of two columns with every pair of literals for every pair of columns of a table of six columns", 36, [](uint64_t i) { int a = (int)(i / 6) * 2, b = (int)(i % 6) * 2; if (a == b) b = a + 1; // columns
		for (int x = 0; x < (TH ? NL : 19); x++) for (int y = 0; y < (TH ? NL : 19); y++) { bool ok = fits(a, LITS[x]) && fits(b, LITS[y]); string need; for (int k = 0; k < NC; k++) if (COLS[k].nn && k != b) need += string(", ") + COLS[k].n; string nv; for (int k = 0; k < NC; k++) if (COLS[k].nn && k != b) nv += ", " + good(COLS[k].ty);
			verdict(1, string("INSERT INTO T (") + COLS[a].n + ", " + COLS[b].n + need + ") VALUES (" + LITS[x].sql + ", " + LITS[y].sql + nv + ");", ok); verdict(1, string("UPDATE T SET ") + COLS[b].n + " = " + LITS[y].sql + ", " + COLS[a].n + " = " + LITS[x].sql + " WHERE j >= 0;", ok); } }, 1);
	add("columns", "INSERT with every choice of three columns or unknown ones in the list (duplicates, NOT NULL ones left out) and every number of values from none to two too many, per row", 14 * 14 * 14, [](uint64_t i) { Radix r(i); int a = (int)r.take(14), b = (int)r.take(14), c = (int)r.take(14); auto nm = [](int k) { return k < NC ? string(COLS[k].n) : k == 12 ? string("nope") : string("T"); };
		// on a table of three columns, so that lists of three can be complete
		Sess s; s.quiet = true; Tab t; t.name = "T"; for (int k : {0, 1, 3}) t.cols.push_back(C(COLS[k].n, COLS[k].ty, 6, COLS[k].nn)); s.create(t); s.insert("T", {{Int(1), Int(2), Str("x")}}); s.quiet = false; uint64_t h0 = vt_hash(vdb_table(s.db, "T"));
		vector<int> L = {a, b, c}; bool known = true, dup = false; std::set<int> seen; for (int k : L) { if (k != 0 && k != 1 && k != 3) known = false; if (!seen.insert(k).second) dup = true; }
		string vals; for (int k : L) vals += (vals.empty() ? "" : ", ") + (k < NC ? good(COLS[k].ty) : "1"); string list = nm(a) + ", " + nm(b) + ", " + nm(c);
		auto go = [&](const string &sql, bool ok) { size_t m = mark(); Got g = s.exec(sql); if (ok != (g.status == VS_EXEC)) fail(fmt("status %d (%s), the statement is %s", g.status, g.msg.c_str(), ok ? "valid" : "not valid")); if (!ok) { if (g.msg.empty()) fail("an error without a message"); if (vt_hash(vdb_table(s.db, "T")) != h0) fail("a refused statement changed the table"); } else h0 = vt_hash(vdb_table(s.db, "T")); history(); rewind_to(m); };
		go("INSERT INTO T (" + list + ") VALUES (" + vals + ");", known && !dup); go("INSERT INTO T (" + list + ") VALUES (" + vals + "), (" + vals + ");", known && !dup);
		if (c == 0) { bool kk = known && a != b; string two = nm(a) + ", " + nm(b), tv = (a < NC ? good(COLS[a].ty) : "1") + ", " + (b < NC ? good(COLS[b].ty) : "1"); bool full = (a == 1 && b == 3) || (a == 3 && b == 1); go("INSERT INTO T (" + two + ") VALUES (" + tv + ");", kk && full);
			if (b == 0) { go("INSERT INTO T (" + nm(a) + ") VALUES (" + (a < NC ? good(COLS[a].ty) : "1") + ");", false); go("UPDATE T SET " + nm(a) + " = " + (a < NC ? good(COLS[a].ty) : "1") + ";", a == 0 || a == 1 || a == 3); } }
		if (known && !dup) for (int n0 = 0; n0 <= 5; n0++) for (int n1 = 0; n1 <= 5; n1++) for (int li = 0; li < 2; li++) { auto tup = [&](int n) { string x = "("; static const char *const v[] = {"1", "2", "'x'", "4", "5"}; for (int k = 0; k < n; k++) x += string(k ? ", " : "") + (li && k < 3 ? good(COLS[L[k]].ty) : v[k]); return x + ")"; }; go(string("INSERT INTO T") + (li ? " (" + list + ")" : "") + " VALUES " + tup(n0) + ", " + tup(n1) + ";", n0 == 3 && n1 == 3); }
		s.close(); });
	static uint64_t no; no = OP.size();
	add("comparisons", fmt("every comparison of %zu operands (all columns, an unknown one, literals of all kinds, NULL) by 7 operators in %d places of SELECT, DELETE and UPDATE, in every state", OP.size(), NCTX), no * no * NCTX, [](uint64_t i) { Radix r(i); int ctx = (int)r.take(NCTX); const O &x = OP[r.take(no)], &y = OP[r.take(no)];
		for (int op = 0; op < 7; op++) { auto w = [&](const O &o) { return joined(ctx) && o.k == 'f' && o.sql == "i" ? string("T.i") : o.sql; }; string c = w(x) + " " + CMPS[op] + " " + w(y); bool ok = cmpok(x, y, op); // DELETE and UPDATE refuse a literal compared with the literal NULL (the project's tests demand it)
			if (ok && strncmp(CTX[ctx], "SELECT", 6) && ((x.k == 'n' && y.k == 'l') || (x.k == 'l' && y.k == 'n'))) ok = false;
			string sql = CTX[ctx]; sql.replace(sql.find("%s"), 2, c); for (int st = 0; st < 3; st++) { if (ok && st == 2 && !TH && strncmp(sql.c_str(), "SELECT", 6)) continue; if (joined(ctx) && st == 2 && !TH && (i + op) % 4) continue; verdict(st, sql, ok); } } });
	add("lists", "IN lists: every column with every pair of literals, columns or NULL in the list; IS NULL and IN on things that are no column", NC * NCTX, [](uint64_t i) { int ctx = (int)(i % NCTX), c = (int)(i / NCTX);
		auto fit = [&](const O &o) { if (o.k == 'n') return true; if (o.k != 'l') return false; if (COLS[c].ty == VT_VARCHAR) return text(o); return o.ty == COLS[c].ty; };
		for (size_t a = 0; a < OP.size(); a++) for (size_t b = 0; b <= OP.size(); b++) for (int n = 0; n < 2; n++) { if (!TH && b < OP.size() && a < 11 && b < 11) continue; if (joined(ctx) && ctx == 7) continue; string f = joined(ctx) && c == 0 ? "T.i" : COLS[c].n; string q = f + (n ? " NOT IN (" : " IN (") + OP[a].sql + (b < OP.size() ? ", " + OP[b].sql : "") + ")"; bool ok = fit(OP[a]) && (b == OP.size() || fit(OP[b])); string sql = CTX[ctx]; sql.replace(sql.find("%s"), 2, q); for (int st = 0; st < (TH ? 3 : 2); st++) verdict(st, sql, ok); }
		for (auto bad : {"1 IS NULL", "'a' IS NOT NULL", "NULL IS NULL", "TRUE IS NULL", "(i = 1) IS NULL", "1 IN (1)", "NULL IN (1)", "'a' NOT IN ('a')", "nope IS NULL", "nope IN (1)", "j IN (1, 1.5)", "j IN (1, (2 = 2))", "j IN (j = 1)", "1", "j", "TRUE", "NULL", "'abc'", "1.5", "j AND i = 1", "i = 1 OR NULL", "1 XOR 1", "j = 1 = 2", "(j = 1) = (j = 2)", "j = (1 = 1)", "j = 1 AND 1", "j IS NULL = 1", "T = 1", "U = 1", "j IN (SELECT k FROM U)"}) { string b = bad; if (joined(ctx)) { size_t p; while ((p = b.find("i =")) != string::npos) b.replace(p, 3, "b ="); } if (joined(ctx)) { if (b.find("b =") != string::npos && b.find("b = 1") != string::npos) { } } string sql = CTX[ctx]; sql.replace(sql.find("%s"), 2, b); for (int st = 0; st < 3; st++) verdict(st, sql, false); } });
	// select lists, FROM lists and GROUP BY: resolution of names
	struct Fr { const char *sql; vector<std::pair<string, string>> t; bool ok; }; static const vector<Fr> FR = { {"T", {{"T", "T"}}, true}, {"U", {{"U", "U"}}, true}, {"T AS a", {{"a", "T"}}, true}, {"U a", {{"a", "U"}}, true}, {"T, U", {{"T", "T"}, {"U", "U"}}, true}, {"U JOIN T ON k = j", {{"T", "T"}, {"U", "U"}}, true}, {"T a, U b", {{"a", "T"}, {"b", "U"}}, true}, {"T, E", {{"T", "T"}, {"E", "E"}}, true}, {"T AS a INNER JOIN U AS b ON a.j = b.k, E", {{"a", "T"}, {"b", "U"}, {"E", "E"}}, true},
		{"T, T", {}, false}, {"T a, T b", {}, false}, {"T a, U a", {}, false}, {"U a JOIN T a ON k = j", {}, false}, {"Z", {}, false}, {"T, Z", {}, false}, {"Z a, T", {}, false}, {"T JOIN Z ON j = 1", {}, false}, {"T AS U, U", {}, false}, {"U, E, U", {}, false} };
	static const vector<string> IT = {"i", "j", "T.i", "T.j", "U.i", "k", "a.i", "b.i", "a.k", "only", "E.only", "nope", "T.nope", "Z.i", "COUNT(*)"}; static const vector<string> GR = {"", "i", "j", "T.i", "k", "a.i", "nope", "T.nope", "Z.i", "U.i", "1", "COUNT(*)", "i = 1"};
	static uint64_t ni, ng; ni = IT.size(); ng = GR.size();
	add("names", fmt("every FROM list (%zu forms, aliases, unknown and repeated tables) with every select list of up to two items out of %zu, GROUP BY lists of up to two out of %zu, and * ", FR.size(), IT.size(), GR.size()), FR.size() * ni, [](uint64_t i) { Radix r(i); const Fr &f = FR[r.take(FR.size())]; int a = (int)r.take(ni);
		auto cols = [](const string &t) { return t == "T" ? vector<string>{"i", "j", "v", "w", "d", "e", "b", "c", "p", "q", "s", "t"} : t == "U" ? vector<string>{"i", "k", "x"} : vector<string>{"only"}; };
		// index of the table a name belongs to, or -1
		auto res = [&](const string &n) { string tab, c = n; size_t p = n.find('.'); if (p != string::npos) { tab = n.substr(0, p); c = n.substr(p + 1); } int hit = -1; for (size_t k = 0; k < f.t.size(); k++) { if (!tab.empty() && f.t[k].first != tab) continue; auto cc = cols(f.t[k].second); if (std::find(cc.begin(), cc.end(), c) != cc.end()) { if (hit >= 0) return -1; hit = (int)k; } } return hit; };
		for (int b = -1; b < (int)ni; b++) for (int g = 0; g < (int)ng; g++) for (int h = -1; h < (int)ng; h++) { if (h == 0 || (g == 0 && h >= 0)) continue; if (h > 0 && (b > 4 || !f.ok)) continue;
			vector<string> it = {IT[a]}; if (b >= 0) it.push_back(IT[b]); vector<string> gr; if (g) gr.push_back(GR[g]); if (h > 0) gr.push_back(GR[h]); bool ok = f.ok, undecided = false, count = false, plain = false;
			for (auto &x : it) { if (x == "COUNT(*)") { count = true; continue; } plain = true; if (res(x) < 0) ok = false; }
			for (auto &x : gr) if (res(x) < 0) ok = false;
			if (gr.empty()) { if (count && plain) ok = false; } else for (auto &x : it) if (x != "COUNT(*)") { bool same = false, near = false; for (auto &y : gr) { if (x == y) same = true; else if (res(x) >= 0 && res(x) == res(y) && x.substr(x.find('.') == string::npos ? 0 : x.find('.') + 1) == y.substr(y.find('.') == string::npos ? 0 : y.find('.') + 1)) near = true; } if (!same) { if (near) undecided = true; else ok = false; } }
			if (undecided && ok) continue; // a grouping column spelled in two ways
			string sql = "SELECT " + it[0] + (b >= 0 ? ", " + it[1] : "") + " FROM " + f.sql; for (size_t k = 0; k < gr.size(); k++) sql += (k ? ", " : " GROUP BY ") + gr[k]; sql += ";"; verdict(h > 0 ? 1 : 0, sql, ok); if (h < 0) verdict(TH ? 2 : 1, sql, ok); }
		if (a == 0) { for (int st = 0; st < 3; st++) { verdict(st, string("SELECT * FROM ") + f.sql + ";", f.ok); verdict(st, string("SELECT COUNT(*) FROM ") + f.sql + ";", f.ok); verdict(st, string("SELECT * FROM ") + f.sql + " GROUP BY j;", false); verdict(st, string("SELECT *, COUNT(*) FROM ") + f.sql + ";", false); } } });
	// statements that are not implemented, or nonsense, are refused
	static const vector<string> BAD = { "SELECT DISTINCT i FROM T;", "SELECT i FROM T ORDER BY i;", "SELECT i FROM T LIMIT 1;", "SELECT i FROM T LIMIT 0, 1;", "SELECT i FROM T GROUP BY i HAVING i = 1;", "SELECT COUNT(*) FROM T HAVING COUNT(*) > 1;", "SELECT i FROM T WHERE v LIKE 'a';", "SELECT i FROM T WHERE v NOT LIKE 'a%';", "SELECT T.i FROM T LEFT JOIN U ON j = k;", "SELECT T.i FROM T RIGHT OUTER JOIN U ON j = k;", "SELECT T.j FROM T CROSS JOIN U;", "SELECT T.j FROM T JOIN U;", "SELECT i AS x FROM T;", "SELECT i x FROM T;", "SELECT COUNT(i) FROM T;", "SELECT COUNT(*) AS n FROM T;", "SELECT 1;", "SELECT 1 FROM T;", "SELECT 'a' FROM T;", "SELECT NULL FROM T;", "SELECT TRUE FROM T;", "SELECT i + 1 FROM T;", "SELECT -i FROM T;", "SELECT i = 1 FROM T;", "SELECT i IS NULL FROM T;", "SELECT i IN (1) FROM T;", "SELECT i;", "SELECT *;", "SELECT COUNT(*);", "SELECT CURRENT_DATE FROM T;", "SELECT CASE i WHEN 1 THEN 2 END FROM T;", "SELECT i FROM T WHERE i + 1 = 2;", "SELECT i FROM T WHERE i BETWEEN 1 AND 2;", "SELECT i FROM T WHERE COUNT(*) = 1;", "SELECT i FROM T WHERE EXISTS (SELECT k FROM U);", "SELECT T.j FROM T JOIN U ON COUNT(*) = 1;", "SELECT T.j FROM T JOIN U ON T.i IS NULL;", "SELECT T.j FROM T JOIN U ON T.i IN (1);", "SELECT T.j FROM T JOIN U ON 1;", "SELECT T.j FROM T JOIN U ON j;",
		"INSERT INTO T SELECT * FROM T;", "INSERT INTO U (k) SELECT j FROM T;", "INSERT INTO Z VALUES (1);", "INSERT INTO U VALUES ();", "INSERT INTO U () VALUES (1, 2, 'x');", "INSERT INTO U;", "INSERT INTO U VALUES (i, 2, 'x');", "INSERT INTO U VALUES (1, 2, DEFAULT);", "INSERT INTO U.i VALUES (1);", "INSERT INTO U VALUES (1, 2, 'x') WHERE i = 1;", "INSERT INTO U SET i = 1;", "UPDATE Z SET i = 1;", "UPDATE T SET nope = 1;", "UPDATE T SET i = j;", "UPDATE T SET i = i + 1;", "UPDATE T SET i = 1 + 1;", "UPDATE T SET i <> 1;", "UPDATE T SET i = (j = 1);", "UPDATE T SET i = 1, nope = 2;", "UPDATE T SET T.i = 1;", "UPDATE T, U SET i = 1;", "UPDATE T SET;", "UPDATE T SET i = 1 LIMIT 1;", "UPDATE T SET i = 1 WHERE T.i = 1;", "DELETE FROM Z;", "DELETE FROM Z WHERE i = 1;", "DELETE FROM T WHERE T.i = 1;", "DELETE FROM T, U;", "DELETE T;", "DELETE FROM T LIMIT 1;", "DELETE * FROM T;", "DELETE FROM T WHERE;", "CREATE TABLE T (i INT);", "CREATE TABLE U (i INT);", "CREATE TABLE G (i INT, i INT);", "CREATE TABLE G (i INT, INDEX(nope));", "CREATE TABLE G (i INT, PRIMARY KEY(i, nope));", "CREATE TABLE G (INDEX(i));", "CREATE TABLE G ();", "CREATE TABLE G;", "CREATE TABLE G (i DECIMAL);", "CREATE TABLE G (i CHAR(3));", "CREATE TABLE G (i VARCHAR);", "CREATE TABLE G (i VARCHAR(0));", "CREATE TABLE G (i VARCHAR(-1));", "CREATE TABLE G (i VARCHAR(10000));", "CREATE TABLE G (i VARCHAR(4294967297));", "CREATE TABLE G (i INT DEFAULT 1);", "CREATE TABLE G AS SELECT * FROM T;", "CREATE TABLE IF EXISTS G (i INT);", "CREATE TABLE G.H (i INT);", "CREATE DATABASE G;", "CREATE TEMPORARY TABLE G (i INT);", "DROP TABLE T;", "ALTER TABLE T ADD z INT;", "TRUNCATE T;", "", ";", ";;", " ", "SELECT", "x", "-- only a comment\n", "SELECT i FROM T", "DELETE FROM T" };
	add("refused", fmt("%zu statements that break one rule or use what is not implemented, in every state, alone and after one another", BAD.size()), BAD.size(), [](uint64_t i) { for (int st = 0; st < 3; st++) { shared(st).refuse(BAD[i]); shared(st).refuse(BAD[(i * 7 + 3) % BAD.size()]); shared(st).refuse(BAD[i]); }
		Db_ d(1); d.refuse(BAD[i]); d.allow("INSERT INTO U VALUES (9, 9, 'nine');"); Got g = d.allow("SELECT x FROM U WHERE k = 9;"); if (g.rows != vector<vector<string>>{{"'nine'"}}) fail("after a refused statement the database gives " + show(g.rows)); d.s.close(); });
	add("late", "INSERT of up to 120 rows of which one, at every position, breaks a rule: nothing is inserted", 120, [](uint64_t i) { int n = (int)i + 1; static const char *const B[] = {"(1, NULL, 'x')", "(1, 2, 'toolong')", "(1, 2)", "(1, 2, 3)", "(1.5, 2, 'x')", "(9223372036854775807 + 1, 2, 'x')", "(1, 1 / 0, 'x')"}; for (int pos = 0; pos < n; pos++) { if (!TH && n > 10 && pos != n - 1 && pos != n / 2 && pos != 0) continue; for (int b = 0; b < 7; b++) { string sql = "INSERT INTO U VALUES "; for (int k = 0; k < n; k++) sql += string(k ? ", " : "") + (k == pos ? B[b] : fmt("(%d, %d, 'r%d')", k, k, k % 100).c_str()); verdict(1, sql + ";", false); } } });
	nm::add_names(nm::REJ);
	seq::add_seq(nm::REJ);
	return mc::run(argc, argv, {"C10", "model_checking", nullptr, {"values that only differ from a valid date in leading spaces or missing leading zeros, and the year 0, are not judged", "a column spelled with its table in one of select list and GROUP BY only is not judged (the project refuses it on purpose)"}});
}
