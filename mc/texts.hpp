// Enumerations of query texts: every text of each space is handed to a function
#pragma once
#include "dom.hpp"
namespace tx {
using namespace sq; using namespace mc;
typedef void (*Feed)(const string &);
static const char *const PRE[] = {
	"CREATE TABLE A (id INT, v VARCHAR(20), d DOUBLE, b TINYINT, dt DATE, ts DATETIME);",
	"INSERT INTO A VALUES (1, 'x', 1.5, TRUE, '2024-02-29', '2024-02-29 23:59:59'), (2, 'it''s', -0.5, FALSE, '1969-12-31', NULL), (3, NULL, NULL, NULL, NULL, '1970-01-01 00:00:00'), (-5, '', 1.5, FALSE, NULL, NULL);",
	"CREATE TABLE B (id INT, w INT, v VARCHAR(5));", "INSERT INTO B VALUES (1, 10, 'x'), (2, 20, 'y'), (NULL, 30, NULL);",
	"CREATE TABLE D (k INT NOT NULL, s DOUBLE);", "INSERT INTO D VALUES (10, 0.5), (20, NULL);", "DELETE FROM B WHERE w = 20;",
	"CREATE TABLE Z (c INT);", "INSERT INTO Z VALUES (7), (8);" }; // Z is named by no text
static void prepare(Sess &s) { bool q = s.quiet; s.quiet = true; size_t m = mark(); for (auto p : PRE) s.ok(p); rewind_to(m); s.quiet = q; }
static const vector<string> STM = {
	"SELECT * FROM A;", "SELECT id, v FROM A WHERE id = 1 AND v <> 'y' OR b = TRUE XOR d >= -0.5;", "SELECT v, A.d FROM A WHERE id IN (1, -5, 7) AND d IS NOT NULL;", "SELECT COUNT(*) FROM A WHERE v NOT IN ('x', 'it''s') OR dt IS NULL;",
	"SELECT b, COUNT(*) FROM A WHERE id < 3 GROUP BY b;", "SELECT A.id, w FROM A INNER JOIN B ON A.id = B.id WHERE w > -5;", "SELECT x.id, y.w, s FROM A AS x, B y, D WHERE x.id = y.id AND y.w = k;",
	"SELECT id FROM A WHERE ts = '2024-02-29 23:59:59' OR (dt < '2024-03-01' AND NULL = id);", "INSERT INTO A VALUES (4, 'new', 2.5, TRUE, '2024-01-01', '2024-01-01 01:02:03');", "INSERT INTO B (v, id) VALUES ('q', 1 + 2 * -3), (NULL, (7 - 2) / 2);",
	"UPDATE A SET v = 'z', d = NULL, b = TRUE WHERE id = 1 AND (dt > '2024-02-28' OR v = 'y');", "DELETE FROM A WHERE id IN (1, 2) AND b = TRUE XOR v IS NULL;",
	"CREATE TABLE E (a INT NOT NULL, b VARCHAR(9) UNIQUE, c DOUBLE, PRIMARY KEY(a, c), INDEX(b));", "CREATE TABLE IF NOT EXISTS E (a INT PRIMARY KEY AUTO_INCREMENT, b DATE NULL);",
	// what the engine does not implement
	"SELECT DISTINCT id AS z FROM A LEFT OUTER JOIN B ON A.id = B.id WHERE v LIKE 'x%' GROUP BY id DESC HAVING COUNT(*) > 1 ORDER BY id ASC LIMIT 1, 2;", "SELECT CASE id WHEN 1 THEN 'a' ELSE NULL END, CURRENT_DATE, -id * 2 MOD 3, COUNT(v) FROM A;", "INSERT B (id) SELECT id FROM A;", "SELECT 1;" };
static const vector<string> VOC = { "SELECT", "FROM", "WHERE", "GROUP", "BY", "INNER", "LEFT", "JOIN", "ON", "AS", "AND", "OR", "XOR", "NOT", "NULL", "IS", "IN", "LIKE", "BETWEEN", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "IF", "EXISTS", "INT", "VARCHAR", "DOUBLE", "DATE", "DATETIME", "TINYINT", "PRIMARY", "KEY", "INDEX", "UNIQUE", "AUTO_INCREMENT", "TRUE", "UNKNOWN", "COUNT(", "CASE", "WHEN", "THEN", "ELSE", "END", "CURRENT_DATE", "DISTINCT", "HAVING", "ORDER", "LIMIT", "DESC", "MOD", "OUTER",
	"A", "B", "id", "v", "nope", "`Z9`", "1", "-7", "1.5", "'x'", "'2024-02-29'", "9223372036854775808", "=", "<>", "<", "(", ")", ",", ".", ";", "*", "+", "-", "/", "%", "||", "!", "@" };
static vector<string> lex(const string &s) { vector<string> r; for (size_t i = 0; i < s.size();) { if (isspace((unsigned char)s[i])) { i++; continue; } size_t j = i + 1;
		if (s[i] == '\'') { while (s[j] != '\'' || s[j + 1] == '\'') j += s[j] == '\'' ? 2 : 1; j++; } else if (isalpha((unsigned char)s[i])) { while (isalnum((unsigned char)s[j]) || s[j] == '_') j++; if (s[j] == '(' && s.compare(i, 5, "COUNT") == 0) j++; }
		else if (isdigit((unsigned char)s[i]) || (s[i] == '-' && isdigit((unsigned char)s[i + 1]))) { while (isdigit((unsigned char)s[j]) || s[j] == '.') j++; } else if (!s.compare(i, 2, "<=") || !s.compare(i, 2, ">=") || !s.compare(i, 2, "<>")) j++;
		r.push_back(s.substr(i, j - i)); i = j; } return r; }
static string glue(const vector<string> &t) { string r; for (auto &x : t) r += (r.empty() ? "" : " ") + x; return r; }
// ---- derivations of the query language, each choice other than the first being a deviation
struct Gram { map<string, vector<vector<string>>> g; void add(const string &n, const string &alts) { size_t i = 0; while (i <= alts.size()) { size_t j = alts.find(" | ", i); string a = alts.substr(i, j == string::npos ? j : j - i); vector<string> v; size_t p = 0; while (p < a.size()) { size_t q = a.find(' ', p); string w = a.substr(p, q == string::npos ? q : q - p); if (!w.empty() && w != "_") v.push_back(w); if (q == string::npos) break; p = q + 1; } g[n].push_back(v); if (j == string::npos) break; i = j + 3; } } };
static Gram grammar() { Gram G;
	G.add("stmt", "sel ; | del ; | ins ; | upd ; | cre ; | sel del ; | sel ; del ; | ins ; ins ; | ;"); 
	G.add("sel", "SELECT items FROM tabs where group | SELECT opts items FROM tabs where group hav ord lim | SELECT items | SELECT id FROM T WHERE x | SELECT w FROM T JOIN U ON x | SELECT x FROM T | SELECT v , COUNT( * ) FROM T WHERE x GROUP BY v | SELECT id FROM T GROUP BY x | SELECT id , COUNT( * ) FROM T GROUP BY id HAVING x | SELECT id FROM T ORDER BY x | SELECT id FROM T LIMIT x , x");
	G.add("opts", "DISTINCT | DISTINCT DISTINCT"); G.add("items", "* | item | item , item | item , item , item | * , item | item , *"); G.add("item", "x | x AS n | x n");
	G.add("tabs", "T | T , U | U , T , W | tab JOIN tab ON x | tab INNER JOIN tab ON x JOIN W ON x | T , U JOIN W ON x | tab lr JOIN tab ON x | T , T | nope | tab , tab"); G.add("tab", "T | U | T AS t | T t | nope | U AS t"); G.add("lr", "LEFT | RIGHT | LEFT OUTER | RIGHT OUTER");
	G.add("where", "_ | WHERE x"); G.add("group", "_ | GROUP BY gl"); G.add("gl", "id | x | x , x | x ASC | id DESC , v"); G.add("hav", "_ | HAVING x"); G.add("ord", "_ | ORDER BY x | ORDER BY x DESC , x"); G.add("lim", "_ | LIMIT x | LIMIT x , x");
	G.add("x", "id | id = 1 | x = x | x < x | x <> x | x >= x | x AND x | x OR x | x XOR x | ( x ) | x IS NULL | x IS NOT NULL | x IN ( xs ) | x NOT IN ( xs ) | COUNT( * ) | COUNT( x ) | v | d | b | dt | ts | w | nope | T . id | U . id | t . v | nope . id | 'x' | '2024-02-29' | '2024-02-29_10:00:00' | 1 | -7 | 1.5 | TRUE | UNKNOWN | NULL | 9223372036854775807 | x + x | x - x | x * x | x / x | x % x | x MOD x | - x | x LIKE x | x NOT LIKE x | CASE x WHEN x THEN x END | CASE WHEN x THEN x ELSE x END | CURRENT_DATE");
	G.add("xs", "x | x , x | x , x , x"); G.add("n", "z | id | v | A");
	G.add("del", "DELETE FROM dt_ | DELETE FROM dt_ WHERE y"); G.add("dt_", "T | nope"); 
	G.add("y", "id = 1 | id | y = y | y < y | y <> y | y AND y | y OR y | y XOR y | ( y ) | y IS NULL | y IS NOT NULL | y IN ( ys ) | y NOT IN ( ys ) | v | d | b | dt | ts | nope | 'x' | '2024-02-29' | 1 | -7 | 1.5 | TRUE | UNKNOWN | NULL"); G.add("ys", "y | y , y | y , y , y");
	G.add("ins", "INSERT INTO U VALUES rows | INSERT U cols VALUES rows | INSERT INTO U cols sel | INSERT INTO T cols VALUES rows | INSERT INTO nope VALUES rows"); G.add("cols", "( id , w , v ) | ( id ) | ( nm ) | ( nm , nm ) | ( nm , nm , nm ) | _"); G.add("nm", "id | v | w | nope | d");
	G.add("rows", "( 1 , 2 , 'x' ) | row | row , row | row , row , row"); G.add("row", "( e , e , e ) | ( e ) | ( e , e ) | ( e , e , e , e )");
	G.add("e", "1 | 'x' | 'toolongtext' | 1.5 | TRUE | NULL | UNKNOWN | '2024-02-29' | -7 | 9223372036854775807 | e + e | e - e | e * e | e / e | e % e | - e | ( e ) | 0");
	G.add("upd", "UPDATE dt_ SET as | UPDATE dt_ SET as WHERE y"); G.add("as", "nm = y | nm = y , nm = y | nm < y | id = 5");
	G.add("cre", "CREATE TABLE E ( defs ) | CREATE TABLE IF NOT EXISTS E ( defs ) | CREATE TABLE IF EXISTS E ( defs ) | CREATE TABLE T ( defs ) | CREATE TABLE IF NOT EXISTS T ( defs )"); G.add("defs", "a INT | def | def , def | def , def , def");
	G.add("def", "a type | a type att | a type att att | b type att | PRIMARY KEY ( kl ) | INDEX ( kl )"); G.add("type", "INT | INTEGER | TINYINT | DOUBLE | DATE | DATETIME | VARCHAR ( 9 ) | VARCHAR ( 0 ) | VARCHAR ( 9999 ) | VARCHAR ( 10000 ) | VARCHAR ( -1 ) | VARCHAR"); G.add("att", "NOT NULL | NULL | AUTO_INCREMENT | UNIQUE | PRIMARY KEY"); G.add("kl", "a | b | a , b | a , a | nope");
	G.add("T", "A"); G.add("U", "B"); G.add("W", "D"); G.add("t", "q"); return G; }
static Gram &gram() { static Gram G = grammar(); return G; }
// leftmost derivation; a choice costs 1 unless it is the first; recursion is bounded because every deviation costs
struct Deriv { vector<int> tape, width; vector<bool> costly; size_t pos; int left, budget; vector<string> out;
	int pick(int n) { if (pos == tape.size()) { tape.push_back(0); width.push_back(left > 0 ? n : 1); } int c = tape[pos++]; if (c) left--; return c; }
	void expand(const string &s) { auto it = gram().g.find(s); if (it == gram().g.end()) { out.push_back(s == "'2024-02-29_10:00:00'" ? "'2024-02-29 10:00:00'" : s); return; } auto &alts = it->second; int c = alts.size() == 1 ? 0 : pick((int)alts.size()); for (auto &x : alts[c]) expand(x); }
	string text() { pos = 0; left = budget; out.clear(); expand("stmt"); return glue(out); }
	bool next(size_t keep) { tape.resize(pos); width.resize(pos); while (tape.size() > keep) { if (++tape.back() < width.back()) return true; tape.pop_back(); width.pop_back(); } return false; } };
// all derivations with at most n deviations whose first two choices are given
static void derive(int n, int first, int second, Feed f) { Deriv d; d.budget = n; d.tape = {first}; d.width = {1}; size_t keep = 1; if (second >= 0) { d.tape.push_back(second); d.width.push_back(1); keep = 2; } do f(d.text()); while (d.next(keep)); }
static const unsigned char REDUCED[] = {'a', 'A', 'x', 'e', '_', '0', '1', '9', '.', '-', '+', '\'', '"', '`', '\\', '/', '*', '#', ';', ',', '(', ')', '=', '<', '>', '!', '&', '|', '%', '^', '~', '@', '$', '?', '[', '{', ':', ' ', '\t', '\n', '\r', '\v', 1, 127, 128, 0xc3, 255};
static const int NRED = sizeof REDUCED;
static Feed FEED; static bool TH;
static vector<string> PIECES(size_t n) { // a token of length n of every kind
	string a(n, 'a'); return {a, "`" + a + "`", "'" + a + "'", "\"" + a + "\"", string(n, '1'), "-" + string(n, '9'), "1." + string(n, '3'), "1e" + string(n, '0') + "1", "/*" + a + "*/", "#" + a + "\n", "-- " + a + "\n", string(n, ' '), string(n, '('), string(n, ')'), string(n, ';'), string(n, '-'), "'" + string(n / 2, '\\') + string(n / 2, '\'') , "'" + a, "`" + a, "\"" + a, "/*" + a, "0x" + string(n, 'F'), "b'" + string(n, '1') + "'", string(n, '\''), string(n, '"'), string(n, '`'), string(n, (char)0xff), string(n, '%') + "s%n"}; }
static vector<size_t> LENS; static vector<string> NEST(size_t n); 
static void add_texts(Feed feed, bool th) { FEED = feed; TH = th;
	add("bytes", fmt("every text of up to two bytes, and of %s bytes of %d kinds; alone and ended by a semicolon", th ? "up to four" : "three", NRED), 256 + NRED * NRED, [](uint64_t i) {
		auto both = [](const string &s) { FEED(s); FEED(s + ";"); };
		if (i < 256) { if (!i) { FEED(""); return; } string a(1, (char)i); both(a); for (int b = 1; b < 256; b++) both(a + (char)b); return; } i -= 256; string a = {(char)REDUCED[i % NRED], (char)REDUCED[i / NRED]}; for (int c = 0; c < NRED; c++) { both(a + (char)REDUCED[c]); if (TH) for (int d = 0; d < NRED; d++) both(a + (char)REDUCED[c] + (char)REDUCED[d]); } });
	add("byte edits", fmt("%zu statements with each byte removed, doubled, or replaced by or preceded by each of %d byte values, and cut off at each byte", STM.size(), th ? 255 : NRED), STM.size() * 8, [](uint64_t i) { const string &s = STM[i / 8]; for (size_t p = i % 8; p <= s.size(); p += 8) { FEED(s.substr(0, p)); FEED(s.substr(0, p) + ";"); if (p < s.size()) { FEED(s.substr(0, p) + s.substr(p + 1)); FEED(s.substr(0, p) + s[p] + s.substr(p)); FEED(s.substr(p)); } for (int b = 0; b < (TH ? 255 : NRED); b++) { string c(1, (char)(TH ? b + 1 : REDUCED[b])); FEED(s.substr(0, p) + c + s.substr(p)); if (p < s.size()) FEED(s.substr(0, p) + c + s.substr(p + 1)); } } });
	add("token sequences", fmt("every sequence of up to %s of %zu tokens", th ? "three tokens, and of four that starts with a statement's first word," : "three", VOC.size()), VOC.size() * VOC.size(), [](uint64_t i) { string a = VOC[i % VOC.size()] + " " + VOC[i / VOC.size()]; if (i < VOC.size()) { FEED(VOC[i]); FEED(VOC[i] + ";"); } FEED(a + ";"); const string &f = VOC[i % VOC.size()]; bool verb = f == "SELECT" || f == "INSERT" || f == "UPDATE" || f == "DELETE" || f == "CREATE"; for (auto &c : VOC) { FEED(a + " " + c + ";"); if (TH && verb) for (auto &d : VOC) FEED(a + " " + c + " " + d + ";"); } });
	add("token edits", fmt("%zu statements with each token removed, doubled, swapped with any other, or replaced or preceded by each of %zu tokens%s", STM.size(), VOC.size(), th ? "; every two neighbouring tokens replaced by every two" : ""), STM.size() * 8, [](uint64_t i) { auto t = lex(STM[i / 8]); for (size_t p = i % 8; p < t.size(); p += 8) { auto x = t; x.erase(x.begin() + p); FEED(glue(x)); for (size_t q = p + 1; q < t.size(); q++) { x = t; x.erase(x.begin() + p, x.begin() + q + 1); FEED(glue(x)); x = t; std::swap(x[p], x[q]); FEED(glue(x)); } x = t; x.insert(x.begin() + p, t[p]); FEED(glue(x)); for (auto &v : VOC) { x = t; x[p] = v; FEED(glue(x)); x.insert(x.begin() + p, t[p]); FEED(glue(x)); x = t; x.insert(x.begin() + p, v); FEED(glue(x)); if (TH && p + 1 < t.size()) for (auto &w : VOC) { x = t; x[p] = v; x[p + 1] = w; FEED(glue(x)); } } } });
	static vector<std::pair<int, int>> roots; if (roots.empty()) { auto &g = gram().g["stmt"]; for (size_t a = 0; a < g.size(); a++) { string nt = g[a][0]; if (gram().g.count(nt)) for (size_t b = 0; b < gram().g[nt].size(); b++) roots.push_back({(int)a, (int)b}); else roots.push_back({(int)a, -1}); } }
	add("derivations", fmt("every text derived from a grammar of the language (with what is not implemented) by at most %d choices other than the plainest, below each form of each statement", th ? 3 : 2), roots.size() * 64, [](uint64_t i) { auto r = roots[i / 64]; int part = (int)(i % 64); // split by counting texts
		static uint64_t k; static int P; P = part; k = 0; int cost = (r.first != 0) + (r.second > 0); derive((TH ? 3 : 2) + cost, r.first, r.second, [](const string &s) { if (k++ % 64 == (uint64_t)P) FEED(s); }); });
	for (int e = 0; e < (th ? 18 : 17); e++) for (int d = -1; d <= 1; d++) { size_t n = (size_t)1 << e; if ((int)n + d > 0) LENS.push_back(n + d); } std::sort(LENS.begin(), LENS.end()); LENS.erase(std::unique(LENS.begin(), LENS.end()), LENS.end());
	add("long tokens", fmt("a token of every kind and of lengths 1 .. %zu (powers of two and their neighbours) at every place of every statement", LENS.back()), LENS.size() * STM.size(), [](uint64_t i) { size_t n = LENS[i / STM.size()]; const string &st = STM[i % STM.size()]; auto t = lex(st); auto pc = PIECES(n); for (size_t k = 0; k < pc.size(); k++) for (size_t p = 0; p < t.size(); p++) { if (n > 300 && !TH && (p + k + i) % 4) continue; auto x = t; x[p] = pc[k]; FEED(glue(x)); if (k >= 8 || TH) { x = t; x.insert(x.begin() + p, pc[k]); FEED(glue(x)); } if (k < 2 && x[p] != ";") { x = t; for (auto &y : x) if (y == t[p]) y = pc[k]; FEED(glue(x)); } } });
	static const size_t NS[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000}; static int nns; nns = th ? 34 : 29;
	{ Suite s; s.name = "nesting"; s.what = fmt("every kind of nesting, chain and list of 1 to %zu elements", NS[nns - 1]); s.n = nns; s.chunk = 1; s.limit = 600; s.run = [](uint64_t i) { for (auto &x : NEST(NS[nns - 1 - i])) FEED(x); }; add(s); }
}
static vector<string> NEST(size_t n) { auto rep = [&](const string &s, const string &sep = "") { string r; for (size_t i = 0; i < n; i++) r += (i ? sep : "") + s; return r; }; auto num = [&](const string &pre, const string &post, const string &sep) { string r; for (size_t i = 0; i < n; i++) r += (i ? sep : "") + pre + fmt("%zu", i) + post; return r; };
	string o(n, '('), c(n, ')'); vector<string> r; for (string h : {"SELECT id FROM A WHERE ", "DELETE FROM A WHERE ", "UPDATE A SET id = 1 WHERE ", "SELECT A.id FROM A JOIN B ON "}) { string id = h[0] == 'S' && h[8] == '.' ? "w" : "id";
		for (string op : {" OR ", " AND ", " XOR "}) { r.push_back(h + rep(id + " = 1", op) + ";"); r.push_back(h + rep("(" + id + " = 1" + op) + id + " = 2" + c + ";"); r.push_back(h + o + id + " = 1" + rep(op + id + " = 2)") + ";"); } r.push_back(h + rep(id + " = 1", " OR d = 1.5 AND ") + ";");
		r.push_back(h + o + id + " = 1" + c + ";"); r.push_back(h + o + id + c + " = " + o + "1" + c + ";"); r.push_back(h + o + id + " = 1;"); r.push_back(h + id + " = 1" + c + ";"); r.push_back(h + rep(id + " = ") + "1;"); r.push_back(h + id + " IN (" + num("", "", ", ") + ");"); r.push_back(h + id + " NOT IN (" + rep("NULL", ", ") + ");"); r.push_back(h + rep(id + " IN (") + "1" + c + ";"); r.push_back(h + id + rep(" IS NULL") + ";"); r.push_back(h + rep("v <> 'abc'", " AND ") + ";"); }
	for (string op : {" + ", " - ", " * ", " / ", " % ", " - -"}) { r.push_back("INSERT INTO B (id) VALUES (" + rep("1", op) + ");"); r.push_back("INSERT INTO B (id) VALUES (" + rep("(1" + op) + "1" + c + ");"); } r.push_back("INSERT INTO B (id) VALUES (" + rep("-(") + "1" + c + ");"); r.push_back("INSERT INTO B (id) VALUES (" + o + "1" + c + ");"); r.push_back("INSERT INTO B (id) VALUES (" + rep("- ") + "1);"); r.push_back("INSERT INTO B (id) VALUES " + rep("(1)", ", ") + ";"); r.push_back("INSERT INTO B VALUES (" + rep("1", ", ") + ");"); r.push_back("INSERT INTO B VALUES " + rep("(1, 2, 'x')", ", ") + ";"); r.push_back("INSERT INTO B VALUES " + rep("(1, 2, 'x')", ", ") + ", (1, 'x', 2);"); r.push_back("INSERT INTO B (" + rep("id", ", ") + ") VALUES (1);"); r.push_back("INSERT INTO B (" + num("c", "", ", ") + ") VALUES (" + rep("1", ", ") + ");"); r.push_back("INSERT INTO B VALUES " + o + "1, 2, 'x'" + c + ";");
	r.push_back("SELECT " + rep("id", ", ") + " FROM A;"); r.push_back("SELECT " + rep("*", ", ") + " FROM A;"); r.push_back("SELECT " + rep("COUNT(*)", ", ") + " FROM A;"); r.push_back("SELECT " + o + "id" + c + " FROM A;"); r.push_back("SELECT " + rep("-") + "id FROM A;"); r.push_back("SELECT " + rep("COUNT(") + "*" + c + " FROM A;"); r.push_back("SELECT " + rep("CASE WHEN 1 = 1 THEN ") + "1" + rep(" END") + " FROM A;"); r.push_back("SELECT id FROM " + rep("A", ", ") + ";"); r.push_back("SELECT id FROM " + num("A AS a", "", ", ") + ";"); r.push_back("SELECT id FROM A" + num(" JOIN A AS a", " ON 1 = 1", "") + ";"); r.push_back("SELECT id FROM A" + rep(" JOIN B ON A.id = B.id") + ";"); r.push_back("SELECT " + rep("DISTINCT ") + "id FROM A;"); r.push_back("SELECT id FROM A GROUP BY " + rep("id", ", ") + ";"); r.push_back("SELECT id FROM A GROUP BY " + o + "id" + c + ";"); r.push_back("SELECT id FROM A ORDER BY " + rep("id", ", ") + ";"); r.push_back("SELECT " + rep("A.") + "id FROM A;");
	r.push_back("UPDATE A SET " + rep("id = 1", ", ") + ";"); r.push_back("UPDATE A SET " + num("c", " = 1", ", ") + ";"); r.push_back("UPDATE A SET id = " + o + "1" + c + ";");
	r.push_back("CREATE TABLE E (" + num("c", " INT", ", ") + ");"); r.push_back("CREATE TABLE E (" + num("c", " VARCHAR(9999)", ", ") + ");"); r.push_back("CREATE TABLE E (" + rep("c INT", ", ") + ");"); r.push_back("CREATE TABLE E (c INT " + rep("NOT NULL ") + ");"); r.push_back("CREATE TABLE E (c INT, PRIMARY KEY(" + rep("c", ", ") + "));"); r.push_back("CREATE TABLE E (c INT, " + rep("INDEX(c)", ", ") + ");"); r.push_back("CREATE TABLE E " + o + "c INT" + c + ";"); r.push_back("CREATE TABLE E (" + num("c", " INT", ", ") + ", PRIMARY KEY(" + num("c", "", ", ") + "));");
	r.push_back(rep("SELECT id FROM A;")); r.push_back(rep("INSERT INTO D VALUES (1, 2.5); ")); r.push_back(rep(";")); r.push_back(rep("/*")); r.push_back(rep("/* */")); r.push_back(rep("'")); r.push_back("SELECT" + rep(" ") + "id FROM A;"); return r; }
}
