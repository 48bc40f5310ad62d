// C13: CREATE TABLE against a catalogue model
#include "../seq.hpp"
using namespace sq; using namespace mc;
struct MCol { string name; int ty, prec; bool nl, uq, ai, ix, pk; bool anynull; };
struct MTab { vector<MCol> cols; };
typedef map<string, MTab> Cat;
static const struct { const char *sql; int ty, prec; } TY[] = { {"INT", VT_INTEGER, 8}, {"VARCHAR(20)", VT_VARCHAR, 20}, {"TINYINT", VT_TINYINT, 1}, {"DOUBLE", VT_DOUBLE, 8}, {"DATE", VT_DATE, 8}, {"DATETIME", VT_DATETIME, 8}, {"INTEGER", VT_INTEGER, 8}, {"INT4", VT_INTEGER, 8}, {"VARCHARACTER(7)", VT_VARCHAR, 7} };
static const int NTY = 9;
static const char *const AT[] = {"NOT NULL", "NULL", "AUTO_INCREMENT", "UNIQUE", "PRIMARY KEY"};
static MCol mc_(const string &n, int t) { return {n, TY[t].ty, TY[t].prec, true, false, false, false, false, false}; }
static void attr(MCol &c, int a) { switch (a) { case 0: c.nl = false; break; case 1: c.anynull = true; break; case 2: c.ai = true; break; case 3: c.uq = true; break; case 4: c.pk = c.uq = true; c.nl = false; } }
static void check_cat(Sess &s, const Cat &m, bool all = true) {
	if (all) {
		static char names[1200][160]; int n = vdb_tables(s.db, names, 1200); if (n != (int)m.size()) fail(fmt("the database has %d tables instead of %zu", n, m.size()));
		std::set<string> got, want; for (int i = 0; i < n; i++) got.insert(names[i]); for (auto &p : m) want.insert(p.first); if (got != want) fail("the database has tables with other names");
	}
	for (auto &p : m) {
		if (vdb_exists(s.db, p.first.c_str()) != 1) fail("table " + p.first + " does not exist");
		void *T = vdb_table(s.db, p.first.c_str()); if (!T) fail("table " + p.first + " cannot be found"); if (p.first != vt_name(T)) fail("table " + p.first + " is called " + vt_name(T));
		if (vt_ncols(T) != (int)p.second.cols.size()) fail(fmt("table %s has %d columns instead of %zu", p.first.c_str(), vt_ncols(T), p.second.cols.size()));
		for (size_t i = 0; i < p.second.cols.size(); i++) {
			const MCol &w = p.second.cols[i]; vcol c; vt_col(T, (int)i, &c);
			bool nl = w.anynull && !w.nl ? c.nullable : w.nl; // NULL and NOT NULL on one column: either is allowed
			if (w.name != c.name || w.ty != c.type || w.prec != c.precision || nl != !!c.nullable || w.uq != !!c.unique || w.ai != !!c.auto_inc || w.ix != !!c.indexed || w.pk != !!c.primary_key)
				fail(fmt("column %zu of table %s is %s type %d size %d nullable %d unique %d auto %d index %d primary %d, declared as %s type %d size %d nullable %d unique %d auto %d index %d primary %d", i, p.first.c_str(), c.name, c.type, c.precision, c.nullable, c.unique, c.auto_inc, c.indexed, c.primary_key, w.name.c_str(), w.ty, w.prec, w.nl, w.uq, w.ai, w.ix, w.pk));
		}
	}
}
static vector<vector<int>> attrs; // every sequence of up to 3 attributes
static vector<vector<int>> subs;  // every ordered non-empty choice of 3 columns
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	attrs.push_back({}); for (size_t i = 0; i < attrs.size(); i++) if ((int)attrs[i].size() < (th ? 5 : 4)) for (int a = 0; a < 5; a++) { auto x = attrs[i]; x.push_back(a); attrs.push_back(x); }
	for (int a = 0; a < 3; a++) { subs.push_back({a}); for (int b = 0; b < 3; b++) { subs.push_back({a, b}); for (int c = 0; c < 3; c++) if (a != b && b != c && a != c) subs.push_back({a, b, c}); } }
	add("attributes", "every type with every sequence of attributes, alone and between other columns", attrs.size(), [](uint64_t i) { auto &A = attrs[i];
		for (int t = 0; t < NTY; t++) for (int w = 0; w < 3; w++) { Sess s; Cat m; MTab T; string d; auto one = [&](const char *n, int ty, bool with) { MCol c = mc_(n, ty); d += string(d.empty() ? "" : ", ") + n + " " + TY[ty].sql; if (with) for (int a : A) { d += string(" ") + AT[a]; attr(c, a); } T.cols.push_back(c); };
			if (w) one("before", (t + w) % NTY, false); one("c", t, true); if (w == 2) one("mid", (t + 4) % NTY, false), one("c2", (t + 1) % NTY, true); if (w) one("after", (t + 2) % NTY, false);
			s.ok("CREATE TABLE T (" + d + ");", 0); m["T"] = T; check_cat(s, m); state(hash_str(d)); history(); s.close(); } }, 2);
	// clauses: up to two, of either kind, of every ordered choice of columns, at every place
	static uint64_t nsub = subs.size() * 2; 
	add("clauses", "PRIMARY KEY(...) and INDEX(...) clauses: every ordered list of up to three columns, one or two clauses at every place among three columns", nsub * (1 + nsub), [](uint64_t i) { Radix r(i); int k1 = (int)r.take(nsub), k2 = (int)r.take(1 + nsub) - 1;
		for (int p1 = 0; p1 < 4; p1++) for (int p2 = p1; p2 < (k2 < 0 ? p1 + 1 : 4); p2++) {
			
			MTab T; static const char *n[] = {"a", "b", "c"}; static const char *at[] = {"", " UNIQUE", " AUTO_INCREMENT"}; for (int c = 0; c < 3; c++) T.cols.push_back(mc_(n[c], (c * 5) % NTY)); T.cols[1].uq = true; T.cols[2].ai = true;
			string d; auto clause = [&](int k) { auto &S = subs[k / 2]; string x = k % 2 ? "PRIMARY KEY(" : "INDEX("; for (size_t j = 0; j < S.size(); j++) { x += string(j ? ", " : "") + n[S[j]]; MCol &c = T.cols[S[j]]; if (k % 2) { c.pk = c.uq = true; c.nl = false; } else c.ix = true; } d += string(d.empty() ? "" : ", ") + x + ")"; };
			for (int c = 0; c <= 3; c++) { if (p1 == c) clause(k1); if (k2 >= 0 && p2 == c) clause(k2); if (c < 3) d += string(d.empty() ? "" : ", ") + n[c] + " " + TY[(c * 5) % NTY].sql + at[c]; }
			Sess s; Cat m; s.ok("CREATE TABLE T (" + d + ");", 0); m["T"] = T; check_cat(s, m); state(hash_str(d)); history(); s.close(); } });
	add("widths", "every number of columns up to 128 with types, names and attributes going round, wider ones refused; and every declared text length", 150 + 100, [](uint64_t i) {
		Sess s; Cat m;
		if (i >= 150) { for (uint64_t l = (i - 150) * 101; l <= (i - 150) * 101 + 100 && l <= 10010; l++) { string sql = fmt("CREATE TABLE T%llu (a INT, v VARCHAR(%llu), b DOUBLE);", (unsigned long long)l, (unsigned long long)l); if (l < 1 || l > 9999) { s.err(sql); continue; } s.ok(sql, 0); MTab T; T.cols = {mc_("a", 0), mc_("v", 1), mc_("b", 3)}; T.cols[1].prec = (int)l; m[fmt("T%llu", (unsigned long long)l)] = T; } check_cat(s, m); history(); s.close(); return; }
		int n = (int)i + 1; for (int v = 0; v < 3; v++) { MTab T; string d; for (int c = 0; c < n; c++) { MCol x = mc_(fmt("%s%d", v == 2 ? string(100, 'n').c_str() : "c", c), (c + v) % NTY); d += (c ? ", " : "") + x.name + " " + TY[(c + v) % NTY].sql; if (v) { int a = (c * 7) % 6; if (a < 5) { d += string(" ") + AT[a]; attr(x, a); } } T.cols.push_back(x); }
			string t = fmt("T%d", v), sql = "CREATE TABLE " + t + " (" + d + ");"; if (n > vt_max_columns()) s.err(sql); else { s.ok(sql, 0); m[t] = T; } check_cat(s, m); history(); } s.close(); });
	add("names", "table and column names of every length and shape, quoted and unquoted, keywords in quotes, names equal up to case or that are prefixes of one another", 150 + 8, [](uint64_t i) {
		Sess s; Cat m; auto mk = [&](const string &t, const string &c, bool good, bool q) { string qq = q ? "`" : ""; string sql = "CREATE TABLE " + qq + t + qq + " (z DOUBLE, " + qq + c + qq + " INT UNIQUE);"; if (!good) s.err(sql); else { s.ok(sql, 0); MTab T; T.cols = {mc_("z", 3), mc_(c, 0)}; T.cols[1].uq = true; m[t] = T; } check_cat(s, m); history(); };
		if (i < 150) { int l = (int)i + 1; bool g = l <= 127; for (int q = 0; q < 2; q++) { mk(string(l, 't') , "c", g && !m.count(string(l, 't')), q); mk(fmt("s%d", q), string(l, 'c'), g && l != 0, q); mk("L" + string(l, q ? '9' : '_'), "x" + string(l - 1, q ? '_' : '7'), l + 1 <= 127, q); } s.close(); return; }
		static const char *const KW[] = {"select", "FROM", "Where", "table", "create", "insert", "into", "values", "update", "set", "delete", "group", "by", "count", "join", "inner", "on", "as", "and", "or", "xor", "not", "null", "is", "in", "int", "integer", "varchar", "double", "date", "datetime", "tinyint", "primary", "key", "index", "unique", "auto_increment", "true", "false", "unknown", "between", "like", "limit", "order", "having", "distinct", "case", "when", "then", "else", "end", "if", "exists", "mod", "STMT", "COLUMN", "COLUMNDEF", "STARTCOL", "PRIKEY", "KEY", "ATTR", "NOTNULL", "CREATE", "T", "t", "Tt", "tT", "TT", "ta", "a_", "a__", "a1", "a01"};
		const int nk = sizeof KW / sizeof *KW;
		if (i < 152) { std::set<string> have; for (int k = 0; k < nk; k++) { int j = i == 150 ? k : nk - 1 - k; string t = KW[j]; mk(t, KW[(j * 7 + 3) % nk] == string("z") ? "y" : KW[(j * 7 + 3) % nk], !have.count(t), true); have.insert(t); } for (int k = 0; k < nk; k++) { auto &c = m[KW[k]].cols[1].name; s.ok(fmt("INSERT INTO `%s` (`%s`) VALUES (%d);", KW[k], c.c_str(), k), 1); } for (int k = 0; k < nk; k++) { auto &c = m[KW[k]].cols[1].name; Got g = s.exec(fmt("SELECT `%s` FROM `%s` WHERE `%s` = %d;", c.c_str(), KW[k], c.c_str(), k)); if (g.status != VS_ROWS || g.rows != vector<vector<string>>{{fmt("%d", k)}}) fail("the row is not found: " + g.msg + " " + show(g.rows)); g = s.exec(fmt("SELECT `%s`.`%s` FROM `%s`;", KW[k], c.c_str(), KW[k])); if (g.status != VS_ROWS || g.rows != vector<vector<string>>{{fmt("%d", k)}}) fail("the row is not found with a qualified name: " + g.msg + " " + show(g.rows)); } check_cat(s, m); s.close(); return; }
		static const char *const BAD[] = {"`1a`", "`_a`", "1a", "`a b`", "`a.b`", "``", "`a-b`", "'a'", "\"a\"", "a.b", "`a`b"}; for (auto b : BAD) { s.err(string("CREATE TABLE ") + b + " (a INT);"); s.err(string("CREATE TABLE G (a INT, ") + b + " INT);"); s.err(string("CREATE TABLE IF NOT EXISTS ") + b + " (a INT);"); check_cat(s, m); } s.close(); });
	add("many", "hundreds of tables in one database: created in several orders, each found again with its own schema and rows, creating any again is refused", 6, [](uint64_t i) {
		Sess s; s.quiet = true; Cat m; int n = thorough() ? 1000 : 300; auto name = [&](int k) { switch (i % 3) { case 0: return fmt("t%d", k); case 1: return string(k % 100 + 1, (char)('a' + k / 100 % 26)); default: return fmt("%c%c%c", 'a' + k % 26, 'a' + k / 26 % 26, 'a' + k * 7 % 26); } };
		for (int k = 0; k < n; k++) { int j = i < 3 ? k : n - 1 - k; string t = name(j); if (m.count(t)) continue; int ty = j % NTY; ops("CREATE TABLE " + t); s.ok("CREATE TABLE " + t + " (c" + fmt("%d", j) + " " + TY[ty].sql + ", k INT);", 0); MTab T; T.cols = {mc_(fmt("c%d", j), ty), mc_("k", 0)}; m[t] = T; if (k % 50 == 0 || k + 1 == n) check_cat(s, m); }
		int k = 0; for (auto &p : m) { s.err("CREATE TABLE " + p.first + " (other INT);"); s.ok("CREATE TABLE IF NOT EXISTS " + p.first + " (other INT);", 0); s.ok("INSERT INTO " + p.first + fmt(" (k) VALUES (%d);", k++), 1); }
		k = 0; for (auto &p : m) { auto d = s.dump(p.first); if (d != vector<vector<string>>{{"NULL", fmt("%d", k++)}}) fail("table " + p.first + " holds " + show(d)); }
		check_cat(s, m); history(); s.close(); }, 1);
	// histories of creations: refused ones change nothing, IF NOT EXISTS is without effect
	static const vector<std::pair<string, int>> H = { {"CREATE TABLE A (x INT);", 1}, {"CREATE TABLE A (y DOUBLE, PRIMARY KEY(y));", 1}, {"CREATE TABLE IF NOT EXISTS A (z INT, w DATE);", 1}, {"CREATE TABLE B (a INT, b VARCHAR(3), INDEX(b));", 1}, {"CREATE TABLE IF NOT EXISTS B (b TINYINT);", 1}, {"CREATE TABLE C (a INT, a INT);", 0}, {"CREATE TABLE A (a INT, INDEX(q));", 0}, {"CREATE TABLE IF NOT EXISTS C (a INT, b INT, PRIMARY KEY(b, c));", 0}, {"CREATE TABLE C (a INT, b INT, a DOUBLE);", 0}, {"CREATE TABLE IF EXISTS A (a INT);", 0}, {"CREATE TABLE B ();", 0}, {"INSERT INTO A VALUES (1);", 2}, {"DELETE FROM A;", 2} };
	static int D; D = th ? 6 : 4; uint64_t nn = H.size() * H.size();
	add("histories", fmt("every history of up to %d statements creating two tables in different ways", D), nn, [](uint64_t i) { vector<int> seq = {(int)(i % H.size()), (int)(i / H.size())};
		std::function<void()> rec = [&]() { size_t mk = mark(); { Sess s; Cat m; bool okx = false; int rows = 0; for (size_t k = 0; k < seq.size(); k++) { auto &h = H[seq[k]];
				auto col = [&](const string &n, int t) { return mc_(n, t); };
				switch (seq[k]) {
				case 0: case 1: case 2: { bool have = m.count("A"); if (have && seq[k] < 2) s.err(h.first); else s.ok(h.first, 0); if (!have) { MTab T; if (seq[k] == 0) { T.cols = {col("x", 0)}; okx = true; } else if (seq[k] == 1) { T.cols = {col("y", 3)}; T.cols[0].pk = T.cols[0].uq = true; T.cols[0].nl = false; } else T.cols = {col("z", 0), col("w", 4)}; m["A"] = T; } break; }
				case 3: case 4: { bool have = m.count("B"); if (have && seq[k] == 3) s.err(h.first); else s.ok(h.first, 0); if (!have) { MTab T; if (seq[k] == 3) { T.cols = {col("a", 0), col("b", 1)}; T.cols[1].prec = 3; T.cols[1].ix = true; } else T.cols = {col("b", 2)}; m["B"] = T; } break; }
				case 11: if (okx) { s.ok(h.first, 1); rows++; } else s.err(h.first); break;
				case 12: if (m.count("A")) { s.ok(h.first, rows); rows = 0; } else s.err(h.first); break;
				default: s.err(h.first); }
				check_cat(s, m); if (m.count("A") && (int)s.dump("A").size() != rows) fail("the rows of table A changed"); }
			s.close(); } history(); string key; for (int x : seq) key += (char)('a' + x); state(hash_str(key));
			rewind_to(mk); if ((int)seq.size() < D) for (size_t a = 0; a < H.size(); a++) { seq.push_back((int)a); rec(); seq.pop_back(); } };
		rec(); }, 1);
	nm::add_names(nm::CRT);
	seq::add_seq(nm::CRT);
	return mc::run(argc, argv, {"C13", "model_checking", nullptr, {"a column declared both NULL and NOT NULL (or PRIMARY KEY) may have either nullability", "UNIQUE and AUTO_INCREMENT are recorded, their enforcement is not claimed"}});
}
