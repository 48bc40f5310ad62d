// C11: no text crashes, hangs or corrupts the process
#include "../texts.hpp"
#include <memory>
using namespace sq; using namespace mc;
static std::unique_ptr<Sess> S_; static uint64_t HZ; static int uses;
static void fresh() { S_.reset(); S_.reset(new Sess); S_->quiet = true; tx::prepare(*S_); HZ = vt_hash(vdb_table(S_->db, "Z")); uses = 0; }
static void feed(const string &sql) {
	size_t m = mark(); if (!S_) fresh(); note("> " + sql); transitions(1);
	vres r; vdb_exec(S_->db, sql.c_str(), &r); int st = r.status; uint64_t oh = hash_str(fmt("%d", st));
	if (st == VS_NULL) fail("query_execute returned no result object");
	if (st == VS_ERROR) oh = hash_str(r.msg, oh);
	if (st == VS_ROWS) { int n = vt_ncols(r.table), k; if (n <= 0 || n > vt_max_columns()) fail(fmt("a result of %d columns", n)); vit it; memset(&it, 0, sizeof it); size_t rows = 0; while ((k = vres_step(&r, &it)) == 1) { if (++rows > 1000000) fail("the result never ends"); for (int i = 0; i < n; i++) { vcell c; vt_cell(r.table, &it, i, &c); if (c.s) oh = hash_bytes(c.s, c.slen, oh); oh = mix(oh, (uint64_t)c.i); } } if (k) fail("query_cur_step reported an error in a complete result"); }
	state(hash_str(sql)); outcome(oh); vres_free(&r); if (vf_locks_held) fail("a lock is still held");
	// the database keeps working
	if (vt_hash(vdb_table(S_->db, "Z")) != HZ) fail("a table that the text does not name changed");
	static char names[64][160]; int n = vdb_tables(S_->db, names, 64); for (int i = 0; i < n && i < 64; i++) { void *t = vdb_table(S_->db, names[i]); if (!t) fail(fmt("table %s is listed but cannot be found", names[i])); vt_hash(t); }
	Got g = S_->exec("SELECT c FROM Z WHERE c = 8;"); if (g.status != VS_ROWS || g.rows != vector<vector<string>>{{"8"}}) fail("afterwards a SELECT gives " + show(g.rows) + " " + g.msg);
	history();
	if (st == VS_EXEC || ++uses > 2000) { S_->ok("INSERT INTO Z VALUES (9);", 1); S_->close(); S_.reset(); }
	rewind_to(m);
}
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); tx::add_texts(feed, tier && !strcmp(tier, "thorough"));
	return mc::run(argc, argv, {"C11", "model_checking", nullptr, {"texts contain no NUL byte (a query is a C string)", "stack size 8 MB, chains and nestings up to the listed numbers of elements"}});
}
