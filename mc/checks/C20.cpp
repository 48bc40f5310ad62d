// C20: statements of several threads on one database, every schedule, against the serial orders
#include "../mc.hpp"
#include "../shim.h"
#include "../vf.h"
#include "../vft.h"
#include <unistd.h>
using namespace mc; using std::string; using std::vector;
typedef vector<vector<string>> Prog; // per thread its statements
static string cell(const vcell &c) { if (c.null) return "NULL"; switch (c.type) { case VT_VARCHAR: return "'" + string(c.s, (size_t)c.slen) + "'"; case VT_DOUBLE: return fmt("%a", c.d); default: return std::to_string(c.i); } }
static string rows_of(void *t) { vector<string> rows; vit it; memset(&it, 0, sizeof it); int nc = vt_ncols(t); while (vt_next(t, &it)) { string r; for (int c = 0; c < nc; c++) { vcell x; vt_cell(t, &it, c, &x); r += cell(x) + ","; } rows.push_back(r); } std::sort(rows.begin(), rows.end()); string d; for (auto &r : rows) d += "|" + r; return d; }
static string digest(vdb *db) { static char names[600][160]; int n = vdb_tables(db, names, 600); vector<string> ts; for (int i = 0; i < n && i < 600; i++) { void *t = vdb_table(db, names[i]); if (!t) fail("a listed table cannot be found"); string d = string(names[i]) + "["; for (int c = 0; c < vt_ncols(t); c++) { vcol v; vt_col(t, c, &v); d += v.name; for (int x : {v.type, v.precision, v.indexed, v.nullable, v.unique, v.auto_inc, v.primary_key}) d += ":" + std::to_string(x); d += " "; } ts.push_back(d + rows_of(t) + "]"); } std::sort(ts.begin(), ts.end()); string r; for (auto &t : ts) r += t; return r; }
// what is done with a statement: executed, its result read to the end, and freed
static string exec1(vdb *db, const string &q) { vres r; vdb_exec(db, q.c_str(), &r); string o = fmt("%d/%zu", r.status, r.status == VS_EXEC || r.status == VS_ROWS ? r.naff : 0);
	if (r.status == VS_ROWS) { vit it; memset(&it, 0, sizeof it); vector<string> rows; int nc = vt_ncols(r.table), k; while ((k = vres_step(&r, &it)) == 1) { string s; for (int c = 0; c < nc; c++) { vcell x; vt_cell(r.table, &it, c, &x); s += cell(x) + ","; } rows.push_back(s); } o += k ? "/broken" : ""; std::sort(rows.begin(), rows.end()); for (auto &s : rows) o += "|" + s; }
	vres_free(&r); return o; }
static vector<vdb *> DBS; static vector<size_t> OF; /* the database of each thread */ static size_t NDB = 1; static const Prog *P; static vector<vector<string>> OUT;
static size_t of(size_t t) { return NDB == 1 ? 0 : OF[t]; }
// "(own)" opens a database of the thread's own for the statements after it, "(end)" closes it
static string step(size_t t, const string &q, vdb **own) { if (q == "(own)") { *own = vdb_open(); return *own ? "opened" : "not opened"; } if (q == "(end)") { int r = vdb_close(*own); *own = nullptr; return fmt("closed %d", r); } if (q == "(tables)") return digest(*own ? *own : DBS[of(t)]); return exec1(*own ? *own : DBS[of(t)], q); }
static vdb *OWN[VFT_MAX];
static void body(int t) { for (size_t i = 0; i < (*P)[(size_t)t].size(); i++) OUT[(size_t)t][i] = step((size_t)t, (*P)[(size_t)t][i], &OWN[t]); }
static void begin(const vector<string> &setup) { vft_reset(); DBS.clear(); memset(OWN, 0, sizeof OWN); for (size_t d = 0; d < NDB; d++) { DBS.push_back(vdb_open()); if (!DBS[d]) fail("database_open failed"); for (auto &s : setup) exec1(DBS[d], s); } OUT.clear(); for (auto &p : *P) OUT.push_back(vector<string>(p.size())); }
static string finish() { string r; for (size_t t = 0; t < OUT.size(); t++) for (size_t i = 0; i < OUT[t].size(); i++) r += fmt("thread %zu: ", t + 1) + OUT[t][i] + "\n"; for (auto d : DBS) r += digest(d) + "\n"; int64_t l = vf_locks_held; for (auto d : DBS) vdb_close(d); if (l) fail("a lock is held at the end"); if (vf_live || vf_live_re) fail(fmt("%lld allocations and %lld compiled expressions are lost", (long long)vf_live, (long long)vf_live_re)); return r; }
static void serial(const vector<string> &setup, std::set<string> &all) { vector<size_t> order; vector<size_t> left; for (auto &p : *P) left.push_back(p.size());
	std::function<void()> rec = [&]() { bool end = true; for (size_t t = 0; t < left.size(); t++) if (left[t]) { end = false; left[t]--; order.push_back(t); rec(); order.pop_back(); left[t]++; } if (!end) return;
		begin(setup); vector<size_t> at(P->size(), 0); for (size_t t : order) { OUT[t][at[t]] = step(t, (*P)[t][at[t]], &OWN[t]); at[t]++; } all.insert(finish()); }; rec(); }
// ---- depth-first search over schedules
static vector<int> tape, width; static size_t pos; static int budget, used; static string sched;
static int choose(int cur, int cur_enabled, const int *en, int n) { int w = cur_enabled && used >= budget ? 1 : n; if (pos == tape.size()) { tape.push_back(0); width.push_back(w); } if (width[pos] != w) { snprintf(vft_error, sizeof vft_error, "the implementation is not deterministic under a schedule"); tape[pos] = 0; width[pos] = w; } int c = tape[pos++]; if (cur_enabled && c) used++; sched += (char)('0' + en[c]); (void)cur; return c; }
static bool next_schedule() { tape.resize(pos); width.resize(pos); while (!tape.empty()) { if (++tape.back() < width.back()) return true; tape.pop_back(); width.pop_back(); } return false; }
static void explore(const vector<string> &setup, const Prog &prog, int points, int preemptions) {
	P = &prog; size_t m = mark(); for (auto &s : setup) note("> " + s); for (size_t t = 0; t < prog.size(); t++) for (auto &q : prog[t]) note(fmt("thread %zu%s > ", t + 1, NDB == 1 ? "" : fmt(", database %zu", of(t) + 1).c_str()) + q);
	std::set<string> want; serial(setup, want); tape.clear(); width.clear(); budget = preemptions; vft_choose = choose; size_t m2 = mark();
	do { pos = 0; used = 0; sched.clear(); begin(setup); vft_points = points; vf_locks_held = 0;
		int rc = vft_run((int)prog.size(), body); vft_points = VFT_ACQUIRE; note("schedule " + sched); transitions(pos + 1); state(hash_str(sched, hash_str(setup.empty() ? "" : setup[0], hash_str(prog[0][0]))));
		if (rc) { fprintf(stderr, "IMPL-DEADLOCK: %s\n", vft_error); fflush(NULL); _exit(98); }
		if (vft_error[0]) fail(vft_error);
		string got = finish(); outcome(hash_str(got)); if (!want.count(got)) fail(fmt("no serial order gives\n%s\n%zu serial outcomes, one is\n%s", got.c_str(), want.size(), want.begin()->c_str()));
		history(); rewind_to(m2);
	} while (next_schedule());
	rewind_to(m); }
static const vector<string> SETUP = {"CREATE TABLE T (i INT, v VARCHAR(20));", "INSERT INTO T VALUES (1, 'a'), (2, NULL), (3, 'b'), (2, 'c');", "CREATE TABLE U (k INT, d DOUBLE);", "INSERT INTO U VALUES (1, 0.5), (2, NULL);", "DELETE FROM T WHERE i = 3;"};
static const vector<string> ST = {"CREATE TABLE N (x INT, y VARCHAR(9), PRIMARY KEY(x));", "INSERT INTO T VALUES (7, 'new'), (8, 'q');", "UPDATE T SET v = 'u', i = 5 WHERE i = 2;", "DELETE FROM T WHERE i = 2;", "SELECT * FROM T;", "INSERT INTO N VALUES (1, 'n');", "SELECT T.v, d FROM T JOIN U ON i = k;", "DELETE FROM T;", // the first eight are combined most
	"CREATE TABLE IF NOT EXISTS N (x INT, x INT);", "CREATE TABLE M (z DATE NOT NULL);", "INSERT INTO T (v) VALUES ('w');", "INSERT INTO U VALUES (2 * 3, 1.5), (NULL, NULL);", "UPDATE T SET v = NULL;", "UPDATE U SET d = 2.5 WHERE k IN (1, 7);", "SELECT COUNT(*) FROM T WHERE v IS NOT NULL;", "SELECT i, COUNT(*) FROM T GROUP BY i;", "SELECT * FROM N;", "SELECT i, k FROM T, U;", "INSERT INTO T VALUES (9, 'far too long a text for it');", "SELECT nope FROM T;", "INSERT INTO T VALUES (1", "CREATE TABLE T (a INT);", "INSERT INTO M VALUES ('2024-02-29');", "UPDATE U SET d = 1, k = 'x';"};
static const vector<string> BIG = [] { vector<string> s = {"CREATE TABLE T (i INT, v VARCHAR(20));"}; string q = "INSERT INTO T VALUES "; for (int i = 0; i < 130; i++) q += fmt("%s(%d, 'r%d')", i ? ", " : "", i % 9, i); s.push_back(q + ";"); s.push_back("CREATE TABLE U (k INT, d DOUBLE);"); s.push_back("INSERT INTO U VALUES (1, 0.5), (2, NULL);"); return s; }();
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static bool TH; TH = th; static uint64_t N; N = ST.size(); static const int SYNC = VFT_ACQUIRE | VFT_RELEASE | VFT_ATOMIC;
	add("pairs", fmt("every pair of %d statements in two threads, every schedule of their lock operations", (int)N), N * N, [](uint64_t i) { Radix r(i); size_t a = r.take(N), b = r.take(N); if (b < a) return; explore(SETUP, {{ST[a]}, {ST[b]}}, SYNC | VFT_RELAXED, 1 << 20); });
	add("pairs, every allocation", fmt("every pair of %d statements in two threads, switched at every lock operation and allocation, at most one preemption", TH ? (int)N : 8), N * N, [](uint64_t i) { Radix r(i); size_t a = r.take(N), b = r.take(N); if (b < a || (!TH && (a > 7 || b > 7))) return; explore(SETUP, {{ST[a]}, {ST[b]}}, SYNC | VFT_ALLOC, 1); });
	add("large table", "pairs of eight statements over a table of several pages, every schedule of their lock operations", 64, [](uint64_t i) { Radix r(i); size_t a = r.take(8), b = r.take(8); if (b < a) return; explore(BIG, {{ST[a]}, {ST[b]}}, SYNC, 1 << 20); });
	add("triples", fmt("every three of %d statements in three threads, every order of their critical sections", (int)(TH ? N : 16)), N * N * N, [](uint64_t i) { Radix r(i); size_t a = r.take(N), b = r.take(N), c = r.take(N); if (b < a || c < b || (!TH && c > 15)) return; explore(SETUP, {{ST[a]}, {ST[b]}, {ST[c]}}, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); });
	static uint64_t K; K = th ? 12 : 8;
	add("two by two", fmt("every two statements of %d in each of two threads, every order of their critical sections", (int)K), K * K * K * K, [](uint64_t i) { Radix r(i); size_t a = r.take(K), b = r.take(K), c = r.take(K), d = r.take(K); if (std::make_pair(c, d) < std::make_pair(a, b)) return; explore(SETUP, {{ST[a], ST[b]}, {ST[c], ST[d]}}, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); });
	add("creates", "two to four threads creating tables of the same and of different names, with and without IF NOT EXISTS: one creates each", 5 * 5 * 5 * 5 * 3, [](uint64_t i) { Radix r(i); int n = 2 + (int)r.take(3); static const char *const C_[5] = {"CREATE TABLE N (x INT);", "CREATE TABLE N (y DATE, z INT);", "CREATE TABLE IF NOT EXISTS N (w DOUBLE);", "CREATE TABLE M (x INT);", "INSERT INTO N VALUES (1);"}; Prog p; size_t last = 0; for (int t = 0; t < n; t++) { size_t c = r.take(5); if (c < last) return; last = c; p.push_back({C_[c]}); } if (r.v) return; explore({}, p, VFT_ACQUIRE | VFT_ATOMIC | (n == 2 ? VFT_ALLOC | VFT_RELEASE : 0), n == 2 ? 1 : 1 << 20); });
	add("growing", "threads creating the tables at which the catalogue grows", 24, [](uint64_t i) { vector<string> s; for (uint64_t k = 0; k < i; k++) s.push_back(fmt("CREATE TABLE t%d (a INT);", (int)k)); explore(s, {{"CREATE TABLE x (a INT);", "INSERT INTO x VALUES (1);"}, {"CREATE TABLE y (a INT);", "SELECT * FROM x;"}}, SYNC, 1 << 20); });
	// threads on databases of their own: nothing orders them, and nothing may be shared
	add("two databases", fmt("every ordered pair of %d statements in two threads, each on a database of its own with the same tables, every schedule of their lock operations", (int)N), N * N, [](uint64_t i) { Radix r(i); size_t a = r.take(N), b = r.take(N); if (b < a) return; NDB = 2; OF = {0, 1}; explore(SETUP, {{ST[a]}, {ST[b]}}, SYNC | VFT_RELAXED, 1 << 20); NDB = 1; });
	add("two databases, every allocation", fmt("pairs of %d statements, each on a database of its own, switched at every lock operation and allocation, at most one preemption", TH ? (int)N : 8), N * N, [](uint64_t i) { Radix r(i); size_t a = r.take(N), b = r.take(N); if (b < a || (!TH && (a > 7 || b > 7))) return; NDB = 2; OF = {0, 1}; explore(SETUP, {{ST[a]}, {ST[b]}}, SYNC | VFT_ALLOC, 1); NDB = 1; });
	add("three threads, two databases", "two threads on one database and a third on another, every order of their critical sections", 8 * 8 * 8, [](uint64_t i) { Radix r(i); size_t a = r.take(8), b = r.take(8), c = r.take(8); if (b < a) return; NDB = 2; OF = {0, 0, 1}; explore(SETUP, {{ST[a]}, {ST[b]}, {ST[c]}}, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); NDB = 1; });
	add("opened and closed", "two threads that open a database each, fill it, ask it and close it, the second doing so once or twice, beside a third database in use; switched at every lock operation and allocation, at most one preemption", 4, [](uint64_t i) {
		vector<string> a = {"(own)", "CREATE TABLE T (i INT, v VARCHAR(9));", "INSERT INTO T VALUES (1, 'x'), (2, NULL);", "SELECT v FROM T WHERE i = 2;", "(tables)", "(end)"}, b = {"(own)", "CREATE TABLE T (d DOUBLE);", "INSERT INTO T VALUES (0.5);", "DELETE FROM T;", "(end)"}; if (i & 1) { auto c = b; b.insert(b.end(), c.begin(), c.end()); }
		Prog p = {a, b}; if (i & 2) { a = {ST[4], ST[1], ST[3]}; p[0] = a; } explore(SETUP, p, SYNC | VFT_ALLOC, 1); });
	if (th) add("two by three", "three statements of four in each of two threads, every order of their critical sections", 64 * 64, [](uint64_t i) { if (i % 64 < i / 64) return; Radix r(i); static const int W[4] = {0, 1, 2, 3}; Prog p(2); for (auto &t : p) for (int k = 0; k < 3; k++) t.push_back(ST[(size_t)W[r.take(4)]]); explore(SETUP, p, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); });
	if (th) add("four threads", "one of six statements in each of four threads, every order of their critical sections", 1296, [](uint64_t i) { Radix r(i); Prog p; size_t last = 0; for (int t = 0; t < 4; t++) { size_t c = r.take(6); if (c < last) return; last = c; p.push_back({ST[c]}); } explore(SETUP, p, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); });
	if (th) add("three by two", "two statements of four in each of three threads, every order of their critical sections", 16 * 16 * 16, [](uint64_t i) { Radix r(i); static const int W[4] = {0, 1, 2, 3}; Prog p; uint64_t last = 0; for (int t = 0; t < 3; t++) { uint64_t c = r.take(16); if (c < last) return; last = c; p.push_back({ST[(size_t)W[c % 4]], ST[(size_t)W[c / 4]]}); } explore(SETUP, p, VFT_ACQUIRE | VFT_ATOMIC, 1 << 20); });
	return mc::run(argc, argv, {"C20", "model_checking", nullptr, {"as long as no schedule shows a data race, switching threads elsewhere than at lock operations and atomic accesses gives nothing new; every memory access of every schedule is checked for races", "memory is sequentially consistent", "functions of the C library are thread-safe, except for localtime, gmtime, ctime, asctime and strtok"}});
}
