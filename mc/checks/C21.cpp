// C21: every statement of a catalogue in every spelling, compared with the plain spelling
#include "../dom.hpp"
#include <cctype>
using namespace sq; using namespace mc;
// ---------------------------------------------------------------- the database the statements run on
static const char *const PRE[] = {
	"CREATE TABLE A (id INT, v VARCHAR(20), d DOUBLE, b TINYINT, dt DATE, ts DATETIME);",
	"INSERT INTO A VALUES (1, 'x', 1.5, TRUE, '2024-02-29', '2024-02-29 23:59:59'), (2, 'it''s', -0.5, FALSE, '1969-12-31', NULL), (3, NULL, NULL, NULL, NULL, '1970-01-01 00:00:00'), (1, 'y', 0.0, TRUE, '2024-03-01', '2024-02-29 23:59:58'), (-5, '', 1.5, FALSE, NULL, NULL);",
	"CREATE TABLE B (id INT, w INT, v VARCHAR(5));", "INSERT INTO B VALUES (1, 10, 'x'), (2, 20, 'y'), (NULL, 30, NULL), (2, -5, 'z');",
	"CREATE TABLE D (k INT, s DOUBLE);", "INSERT INTO D VALUES (10, 0.5), (20, 1.5), (20, NULL);" };
static void setup(Sess &s) { bool q = s.quiet; s.quiet = true; for (auto p : PRE) s.ok(p); s.quiet = q; }
static string all(Sess &s) { static char names[64][160]; int n = vdb_tables(s.db, names, 64); std::set<string> o; for (int i = 0; i < n; i++) { void *T = vdb_table(s.db, names[i]); string x = string(names[i]) + "("; for (int c = 0; c < vt_ncols(T); c++) { vcol k; vt_col(T, c, &k); x += fmt("%s:%d:%d:%d%d%d%d%d ", k.name, k.type, k.precision, k.indexed, k.nullable, k.unique, k.auto_inc, k.primary_key); } auto d = s.dump(names[i]); std::sort(d.begin(), d.end()); o.insert(x + ")" + show(d, 100)); } string r; for (auto &x : o) r += x + "\n"; return r; }
static string outc(const Got &g) { string r = fmt("status %d, %zu affected, ", g.status, g.naff); if (g.status != VS_ROWS) return r; auto d = g.rows; std::sort(d.begin(), d.end()); return r + "columns " + Sess::join(g.cols) + ", " + show(d, 100); }
// run one spelling; statements that change data run in a session of their own
struct Runner { bool pure; std::unique_ptr<Sess> s; string before, base;
	Runner(const string &sql) { pure = strncasecmp(sql.c_str(), "SELECT", 6) == 0; base = run(sql); if (base.find("status 2") == 0) fail("the plain spelling is refused: " + base); }
	string run(const string &sql) { if (!s || !pure) { s.reset(new Sess); setup(*s); if (pure) before = all(*s); }
		size_t m = mark(); Got g = s->exec(sql); string r = outc(g); if (g.status == VS_ERROR) r += g.msg; if (!pure) r += "\n" + all(*s); last = m; return r; }
	size_t last = 0;
	void same(const string &sql) { string r = run(sql); if (r != base) fail("the outcome is " + r + " -- the plain spelling gives " + base); history(); state(hash_str(sql)); rewind_to(last); }
	void end() { if (pure && all(*s) != before) fail("a SELECT changed a table"); s->close(); }
};
// ---------------------------------------------------------------- tokens
struct Tok { string t; char k; }; // k: K keyword, N name, L literal, S symbol, G COUNT (glued to its parenthesis)
static const std::set<string> KWS = {"SELECT", "FROM", "WHERE", "GROUP", "BY", "INNER", "JOIN", "ON", "AS", "AND", "OR", "XOR", "NOT", "NULL", "IS", "IN", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "IF", "EXISTS", "INT", "VARCHAR", "DOUBLE", "DATE", "DATETIME", "TINYINT", "PRIMARY", "KEY", "INDEX", "UNIQUE", "AUTO_INCREMENT", "TRUE", "FALSE"};
static vector<Tok> lex(const string &s) {
	vector<Tok> r; for (size_t i = 0; i < s.size();) { if (isspace(s[i])) { i++; continue; }
		if (s[i] == '\'') { size_t j = i + 1; while (s[j] != '\'' || s[j + 1] == '\'') j += s[j] == '\'' ? 2 : 1; r.push_back({s.substr(i, j + 1 - i), 'L'}); i = j + 1; continue; }
		if (isalpha(s[i])) { size_t j = i; while (isalnum(s[j]) || s[j] == '_') j++; string w = s.substr(i, j - i); r.push_back({w, w == "COUNT" ? 'G' : KWS.count(w) ? 'K' : 'N'}); i = j; continue; }
		bool neg = s[i] == '-' && isdigit(s[i + 1]) && (r.empty() || r.back().k == 'K' || (r.back().k == 'S' && r.back().t != ")"));
		if (isdigit(s[i]) || neg) { size_t j = i + 1; while (isdigit(s[j]) || s[j] == '.' || s[j] == 'e') j++; r.push_back({s.substr(i, j - i), 'L'}); i = j; continue; }
		size_t n = (s.compare(i, 2, "<=") == 0 || s.compare(i, 2, ">=") == 0 || s.compare(i, 2, "<>") == 0) ? 2 : 1; r.push_back({s.substr(i, n), 'S'}); i += n; }
	return r;
}
static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_' || c == '`' || c == '\'' || c == '"'; }
// may these tokens be written without anything between them?
static bool tight(const string &a, const string &b) { if (a.empty() || b.empty()) return true; char x = a.back(), y = b[0]; if (wordy(x) && wordy(y)) return false; if ((x == '<' || x == '>' || x == '=') && (y == '=' || y == '>' || y == '<')) return false; if (x == '/' && y == '*') return false; if (x == '-' && y == '-') return false; if (isdigit(x) && y == '.') return false; return true; }
static string glue(const vector<Tok> &t, const vector<string> &gap) { string r = gap[0]; for (size_t i = 0; i < t.size(); i++) { r += t[i].t; r += gap[i + 1]; } return r; }
// gap i is before token i; gap t.size() is after the last
static vector<string> plain(const vector<Tok> &t) { vector<string> g(t.size() + 1, " "); g[0] = ""; g[t.size()] = ""; for (size_t i = 1; i < t.size(); i++) if (t[i - 1].k == 'G' || t[i].t == "," || t[i].t == ";" || t[i].t == ")" || t[i - 1].t == "(" || t[i].t == "." || t[i - 1].t == ".") g[i] = ""; return g; }
static const char *const SEP[] = {"", " ", "\n", "\t", "\r\n", "   ", "/* c */", " /* ; ' \" ` */ ", "/**/", "/* * / ** */", "-- it's; (\n", "--\t\n", "# x `y ;\n", "#\n", " \n-- a\n# b\n/* c */\t"};
static const int NSEP = sizeof SEP / sizeof *SEP;
static const vector<string> STM = {
	"SELECT * FROM A;", "SELECT id, v FROM A WHERE id = 1 AND v <> 'y' OR b = TRUE XOR d >= -0.5;", "SELECT v, A.d FROM A WHERE id IN (1, -5, 7) AND d IS NOT NULL;", "SELECT COUNT(*) FROM A WHERE v NOT IN ('x', 'it''s') OR dt IS NULL;",
	"SELECT b, COUNT(*) FROM A WHERE id < 3 GROUP BY b;", "SELECT d, b FROM A GROUP BY d, b;", "SELECT A.id, w FROM A INNER JOIN B ON A.id = B.id WHERE w > -5;", "SELECT x.id, y.w, s FROM A AS x, B AS y, D WHERE x.id = y.id AND y.w = k;",
	"SELECT x.v, COUNT(*) FROM A x JOIN B y ON x.id = y.id AND x.v = y.v OR w >= 20 JOIN D ON w <= k GROUP BY x.v;", "SELECT id FROM A WHERE ts = '2024-02-29 23:59:59' OR dt < '2024-03-01' AND NULL = id;", "SELECT id FROM A WHERE -5 = id OR (2 >= id AND (b = FALSE));",
	"INSERT INTO A VALUES (4, 'new', 2.5, TRUE, '2024-01-01', '2024-01-01 01:02:03');", "INSERT INTO B (v, id) VALUES ('q', 1 + 2 * -3), (NULL, (7 - 2) / 2);", "INSERT INTO D VALUES (1 - 1, 2.5 - -1.5), (-3 % 2, -(1.5)), (NULL, NULL);",
	"UPDATE A SET v = 'z', d = NULL, b = TRUE WHERE id = 1 AND (dt > '2024-02-28' OR v = 'y');", "UPDATE B SET w = -7;", "DELETE FROM A WHERE id IN (1, 2) AND b = TRUE XOR v IS NULL;", "DELETE FROM B;", "DELETE FROM D WHERE k <> 10 AND s IS NOT NULL;",
	"CREATE TABLE E (a INT NOT NULL, b VARCHAR(9) UNIQUE, c DOUBLE, d DATE, e DATETIME, f TINYINT, PRIMARY KEY(a, c), INDEX(b));", "CREATE TABLE IF NOT EXISTS E (a INT PRIMARY KEY AUTO_INCREMENT, b DATE NOT NULL UNIQUE);" };
// ---------------------------------------------------------------- choices
struct Choose { vector<int> tape, width; size_t pos = 0; int pick(int n) { if (pos == tape.size()) { tape.push_back(0); width.push_back(n); } return tape[pos++]; }
	bool next() { while (!tape.empty()) { if (++tape.back() < width.back()) { pos = 0; return true; } tape.pop_back(); width.pop_back(); } return false; } };
struct Sp { bool qual, ops, paro, parn; }; // which choices are open
static string wopd(const Opd &o, Choose &c, const Sp &sp, const string &tab) { string r; if (o.field) { r = o.col; if (sp.qual) { int k = c.pick(3); if (k == 1) r = tab + "." + r; if (k == 2) r = "`" + tab + "`.`" + r + "`"; } } else r = lit(o.v); if (sp.paro && c.pick(2)) r = "(" + r + ")"; return r; }
static string wcond(const Cond &k, Choose &c, const Sp &sp, const string &tab, int ctx = 0, bool right = false) {
	string r;
	switch (k.k) {
	case Cond::CMP: { bool m = sp.ops && c.pick(2); const Opd &x = m ? k.b : k.a, &y = m ? k.a : k.b; string o = opname[m ? mirror(k.op) : k.op]; if (k.op == NE && sp.ops && c.pick(2)) o = "!="; string a = wopd(x, c, sp, tab), b = wopd(y, c, sp, tab); r = a + " " + o + " " + b; break; }
	case Cond::ISNULL: { Sp q = sp; q.paro = false; r = wopd(k.a, c, q, tab) + (k.neg ? " IS NOT NULL" : " IS NULL"); break; }
	case Cond::IN: { Sp q = sp; q.paro = false; r = wopd(k.a, c, q, tab) + (k.neg ? " NOT IN (" : " IN ("); for (size_t i = 0; i < k.list.size(); i++) r += (i ? ", " : "") + lit(k.list[i]); r += ")"; break; }
	case Cond::AND: r = wcond(*k.l, c, sp, tab, 3); r += sp.ops && c.pick(2) ? " && " : " AND "; r += wcond(*k.r, c, sp, tab, 3, true); break;
	case Cond::OR: r = wcond(*k.l, c, sp, tab, 1); r += sp.ops && c.pick(2) ? " || " : " OR "; r += wcond(*k.r, c, sp, tab, 1, true); break;
	case Cond::XOR: r = wcond(*k.l, c, sp, tab, 2) + " XOR " + wcond(*k.r, c, sp, tab, 2, true); break;
	}
	bool need = ctx && (prec(k) < ctx || (right && prec(k) == ctx)); int p = need; if (sp.parn) p += c.pick(2); for (; p; p--) r = "(" + r + ")"; return r;
}
static vector<CP> LV = {cmp(EQ, F("id"), L(Int(1))), cmp(NE, L(Str("x")), F("v")), cmp(LT, F("d"), L(Dbl(1.5))), isnull(F("dt")), in(F("id"), {Int(1), Int(2)}, true), cmp(GE, F("ts"), L(DTime("2024-02-29 23:59:59"))), cmp(LE, L(Int(2)), F("id")), cmp(GT, F("dt"), L(Date("1970-01-01")))};
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static bool TH; TH = th;
	add("gaps", fmt("every gap between tokens of %zu statements filled with each of %d kinds of white space and comments; every pair of gaps; all gaps at once", STM.size(), NSEP), STM.size() * NSEP, [](uint64_t i) { Radix r(i); auto &q = STM[r.take(STM.size())]; int sp = (int)r.take(NSEP); auto t = lex(q); Runner R(q);
		auto okgap = [&](size_t g, int s) { if (g > 0 && g < t.size() && t[g - 1].k == 'G') return false; if (*SEP[s]) return true; return g == 0 || g == t.size() || tight(t[g - 1].t, t[g].t); };
		auto G = plain(t); for (size_t g = 0; g <= t.size(); g++) if (okgap(g, sp)) { auto x = G; x[g] = SEP[sp]; R.same(glue(t, x)); if (g && g < t.size()) { x[g] = string(" ") + SEP[sp]; R.same(glue(t, x)); x[g] = string(SEP[sp]) + " "; R.same(glue(t, x)); } }
		auto x = G; for (size_t g = 0; g <= t.size(); g++) if (okgap(g, sp)) x[g] = SEP[sp]; R.same(glue(t, x));
		for (int s2 = 0; s2 < NSEP; s2++) { x = G; for (size_t g = 0; g <= t.size(); g++) { int s = g % 2 ? sp : s2; if (okgap(g, s)) x[g] = SEP[s]; } R.same(glue(t, x)); }
		if (R.pure || TH) for (size_t g = 0; g <= t.size(); g++) for (size_t h = g + 1; h <= t.size(); h++) for (int s2 = 0; s2 < (TH ? NSEP : 1); s2++) { int k = TH ? s2 : (int)((g + h + s2 * 5) % NSEP); if (!okgap(g, sp) || !okgap(h, k)) continue; x = G; x[g] = SEP[sp]; x[h] = SEP[k]; R.same(glue(t, x)); }
		R.end(); });
	add("keywords", "upper, lower and mixed case: every combination over the first keywords of each statement, every pair of the others", STM.size(), [](uint64_t i) { auto &q = STM[i]; auto t = lex(q); Runner R(q); auto G = plain(t); vector<size_t> K; for (size_t k = 0; k < t.size(); k++) if (t[k].k == 'K' || t[k].k == 'G') K.push_back(k);
		auto cs = [](string w, int c) { for (size_t k = 0; k < w.size(); k++) if (c == 1 || (c == 2 && k % 2)) w[k] = (char)tolower(w[k]); return w; };
		size_t n = std::min<size_t>(K.size(), TH ? 8 : 6); uint64_t m = 1; for (size_t k = 0; k < n; k++) m *= 3; for (int from = 0; from < 2; from++) for (uint64_t c = 0; c < m; c++) { Radix d(c); auto x = t; for (size_t k = 0; k < n; k++) { size_t at = from ? K[K.size() - 1 - k] : K[k]; x[at].t = cs(x[at].t, (int)d.take(3)); } R.same(glue(x, G)); }
		for (int c = 1; c < 3; c++) { auto x = t; for (size_t k : K) x[k].t = cs(x[k].t, c); R.same(glue(x, G)); for (size_t a : K) for (size_t b : K) { auto y = t; y[a].t = cs(y[a].t, c); y[b].t = cs(y[b].t, 3 - c); R.same(glue(y, G)); } } R.end(); }, 1);
	add("words", "every choice of quoted or bare names, double or single quotes, and of synonyms: INTEGER, INT4, VARCHARACTER, VALUE, != and optional AS, INNER and INTO", STM.size(), [](uint64_t i) { auto &q = STM[i]; auto t = lex(q); Runner R(q); auto G = plain(t);
		struct Site { size_t at; vector<string> alt; }; vector<Site> S;
		for (size_t k = 0; k < t.size(); k++) { auto &w = t[k].t; if (t[k].k == 'N') S.push_back({k, {w, "`" + w + "`"}}); else if (t[k].k == 'L' && w[0] == '\'' && w.find("''") == string::npos) S.push_back({k, {w, "\"" + w.substr(1, w.size() - 2) + "\""}}); else if (w == "'it''s'") S.push_back({k, {w, "\"it's\""}});
			else if (w == "INT") S.push_back({k, {w, "INTEGER", "INT4", "int4"}}); else if (w == "VARCHAR") S.push_back({k, {w, "VARCHARACTER"}}); else if (w == "VALUES") S.push_back({k, {w, "VALUE"}}); else if (w == "AND") S.push_back({k, {w, "&&"}}); else if (w == "OR") S.push_back({k, {w, "||"}}); else if (w == "<>") S.push_back({k, {w, "!="}}); else if (w == "AS") S.push_back({k, {w, ""}}); else if (w == "INNER") S.push_back({k, {w, ""}}); else if (w == "JOIN" && t[k - 1].t != "INNER") S.push_back({k, {w, "INNER JOIN"}}); else if (w == "INTO") S.push_back({k, {w, ""}}); }
		// all combinations over every window of consecutive sites, and the extremes
		size_t W = TH ? 11 : 9; for (size_t from = 0; from == 0 || from + W <= S.size() + W - 1; from += W - 3) { if (from >= S.size() && from) break; size_t to = std::min(S.size(), from + W); uint64_t m = 1; for (size_t k = from; k < to; k++) m *= S[k].alt.size();
			for (int rest = 0; rest < 2; rest++) for (uint64_t c = 0; c < m; c++) { Radix d(c); auto x = t; for (size_t k = 0; k < S.size(); k++) x[S[k].at].t = k >= from && k < to ? S[k].alt[d.take(S[k].alt.size())] : rest ? S[k].alt.back() : S[k].alt[0]; R.same(glue(x, G)); } }
		R.end(); }, 1);
	static uint64_t nt2; nt2 = trees(2, LV.size());
	add("conditions", "conditions of one or two comparisons in every combination of mirrored operands, synonyms, parentheses around operands and nodes, and qualified names: SELECT, DELETE and UPDATE", (LV.size() + nt2), [](uint64_t i) { CP k = i < LV.size() ? LV[i] : tree(2, LV, i - LV.size()); bool one = i < LV.size();
		for (int st = 0; st < 3; st++) { string head = st == 0 ? "SELECT id, v, dt FROM A WHERE " : st == 1 ? "DELETE FROM A WHERE " : "UPDATE A SET d = 9.5, v = 'u' WHERE "; Runner R(head + str(*k) + ";");
			for (int cfg_ = 0; cfg_ < (one ? 1 : 3); cfg_++) { Sp sp = one ? Sp{true, true, true, true} : cfg_ == 0 ? Sp{false, true, true, true} : cfg_ == 1 ? Sp{true, true, false, true} : Sp{true, false, true, false}; if (st) { if (cfg_) continue; sp.qual = false; if (!one && !TH) sp.paro = false; } Choose c; do { c.pos = 0; R.same(head + wcond(*k, c, sp, "A") + ";"); } while (c.next()); } R.end(); } }, 1);
	static vector<CP> L3 = {LV[0], LV[1], LV[3]}; static uint64_t nt3; nt3 = trees(3, 3);
	add("trees", "conditions of three comparisons in every combination of synonyms, mirrored operands and parentheses around nodes", nt3, [](uint64_t i) { CP k = tree(3, L3, i); string head = "SELECT id, v, dt FROM A WHERE "; Runner R(head + str(*k) + ";"); Choose c; for (int f = 0; f < (TH ? 1 : 2); f++) { c = Choose(); do { c.pos = 0; R.same(head + wcond(*k, c, {false, TH || f, false, TH || !f}, "A") + ";"); } while (c.next()); } R.end();
		string h2 = "DELETE FROM A WHERE "; Runner Q(h2 + str(*k) + ";"); Choose d; do { d.pos = 0; Q.same(h2 + wcond(*k, d, {false, TH, false, true}, "A") + ";"); } while (d.next()); Q.end(); }, 4);
	// names: bare, qualified by table, by alias; aliases in every combination of tables
	add("names", "select lists, conditions, ON and GROUP BY with every column bare (where it is unique), qualified by table name or by alias, with every choice of aliases", 5, [](uint64_t i) {
		struct Q { const char *sql; vector<string> tabs; bool groups; }; // {c:T.x} a column unique to its table, {q:T.x} a column that needs its table, [T] a table
		static const vector<Q> QS = { {"SELECT {q:A.id}, {c:A.d}, {q:A.v} FROM [A] WHERE {c:A.b} = TRUE AND {q:A.id} > 0;", {"A"}, false}, {"SELECT {q:A.id}, {c:B.w} FROM [A] JOIN [B] ON {q:A.id} = {q:B.id} WHERE {c:A.d} >= 0.0 AND {c:B.w} < 20;", {"A", "B"}, false}, {"SELECT {c:D.s}, {q:B.v}, {c:A.dt} FROM [A], [B], [D] WHERE {q:A.id} = {q:B.id} AND {c:B.w} = {c:D.k};", {"A", "B", "D"}, false},
			{"SELECT {q:B.id}, COUNT(*) FROM [B] WHERE {c:B.w} IS NOT NULL GROUP BY {q:B.id};", {"B"}, true}, {"SELECT {c:D.k}, {q:A.v}, COUNT(*) FROM [D] JOIN [B] ON {c:D.k} >= {c:B.w}, [A] WHERE {q:A.id} = {q:B.id} GROUP BY {c:D.k}, {q:A.v};", {"A", "B", "D"}, true} };
		const Q &q = QS[i]; bool single = q.tabs.size() == 1; string p = q.sql;
		auto render = [&](Choose &c) { map<string, string> al; for (auto &t : q.tabs) { static const char *const A[] = {"", "z", "al_1"}; int k = c.pick(3); al[t] = k ? A[k] + t : ""; } map<string, int> grp; string o;
			for (size_t k = 0; k < p.size();) { if (p[k] == '[') { string t = p.substr(k + 1, 1); o += t; if (!al[t].empty()) o += (c.pick(2) ? " AS " : " ") + al[t]; k += 3; continue; }
				if (p[k] == '{') { size_t e = p.find('}', k); bool need = p[k + 1] == 'q' && !single; string t = p.substr(k + 3, 1), col = p.substr(k + 5, e - k - 5); k = e + 1; int w;
					string key = t + col; /* a grouping column is spelled the same way each time */ if (q.groups && grp.count(key)) w = grp[key]; else { w = need ? 1 : c.pick(2); grp[key] = w; } if (w == 0) o += col; else o += (al[t].empty() ? t : al[t]) + "." + col; continue; }
				o += p[k++]; } return o; };
		Choose c0; string base = render(c0); Runner R(base); Choose c; do { c.pos = 0; R.same(render(c)); } while (c.next()); R.end(); }, 1);
	// the same join written in every way
	add("joins", "two and three tables joined: INNER JOIN, JOIN and comma list, conditions in ON or WHERE, tables in every order, for every pair of join conditions", 2 * 10 * 10, [](uint64_t i) {
		static const vector<CP> JC = {cmp(EQ, F("id", "A"), F("id", "B")), cmp(LT, F("id", "A"), F("id", "B")), cmp(NE, F("v", "A"), F("v", "B")), cmp(EQ, F("w", "B"), L(Int(20))), cmp(GE, F("d", "A"), L(Dbl(1.5))), cmp(EQ, F("id", "B"), F("id", "A")), bin(Cond::OR, cmp(EQ, F("id", "A"), F("id", "B")), cmp(EQ, F("w", "B"), L(Int(30)))), bin(Cond::AND, cmp(EQ, F("id", "A"), F("id", "B")), cmp(EQ, F("v", "A"), F("v", "B"))), bin(Cond::XOR, cmp(EQ, F("id", "A"), F("id", "B")), cmp(EQ, F("v", "A"), F("v", "B"))), cmp(LE, F("id", "B"), F("id", "A"))};
		static const vector<CP> J3 = {cmp(EQ, F("w", "B"), F("k", "D")), cmp(LT, F("s", "D"), F("d", "A")), bin(Cond::OR, cmp(EQ, F("w", "B"), F("k", "D")), cmp(EQ, F("id", "A"), F("id", "B"))), cmp(GT, F("k", "D"), F("w", "B")), cmp(EQ, F("s", "D"), L(Dbl(0.5))), cmp(NE, F("k", "D"), F("w", "B")), bin(Cond::AND, cmp(EQ, F("w", "B"), F("k", "D")), cmp(EQ, F("s", "D"), F("d", "A"))), cmp(EQ, F("d", "A"), F("s", "D")), cmp(GE, F("d", "A"), F("s", "D")), cmp(LE, F("k", "D"), L(Int(10)))};
		Radix r(i); int nt = 2 + (int)r.take(2); CP a = JC[r.take(10)]; CP b = (nt == 3 ? J3 : JC)[r.take(10)]; vector<string> T = {"A", "B"}; if (nt == 3) T.push_back("D"); string list = nt == 3 ? "A.id, w, A.v, B.v, s" : "A.id, w, A.v, B.v"; string both = str(*bin(Cond::AND, a, b)), both2 = str(*bin(Cond::AND, b, a)); string base = "SELECT " + list + " FROM A, B" + (nt == 3 ? ", D" : "") + " WHERE " + both + ";"; Runner R(base);
		std::sort(T.begin(), T.end()); do { string fl; for (auto &t : T) fl += (fl.empty() ? "" : ", ") + t; R.same("SELECT " + list + " FROM " + fl + " WHERE " + both + ";"); R.same("SELECT " + list + " FROM " + fl + " WHERE " + both2 + ";");
			for (string J : {" JOIN ", " INNER JOIN "}) { if (nt == 2) { R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + both + ";"); R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + both2 + ";"); R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + str(*a) + " WHERE " + str(*b) + ";"); R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + str(*b) + " WHERE " + str(*a) + ";"); }
				else { // all of it in the last ON; a condition in the first ON when it only needs those tables
					auto needs = [](const string &c, const string &t) { return c.find(t + ".") != string::npos; }; string sa = str(*a), sb = str(*b);
					R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON 1 = 1" + J + T[2] + " ON " + both + ";");
					if (!needs(sa, T[2])) { R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + sa + J + T[2] + " ON " + sb + ";"); R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + sa + ", " + T[2] + " WHERE " + sb + ";"); }
					if (!needs(sb, T[2])) R.same("SELECT " + list + " FROM " + T[0] + J + T[1] + " ON " + sb + J + T[2] + " ON " + sa + ";"); } } } while (std::next_permutation(T.begin(), T.end())); R.end(); });
	return mc::run(argc, argv, {"C21", "model_checking", nullptr, {"COUNT and its parenthesis are one word (as in MySQL): no spelling puts anything between them", "names are case-sensitive: their case is never changed"}});
}
