// C14: the storage layer against a list of tuples, every sequence of row and column operations
#include "../dom.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_TINYINT, VT_DOUBLE, VT_DATE, VT_DATETIME};
struct Store {
	void *t; vector<Col> cols; vector<Row> rows; int seq = 0, names = 0; int64_t l0; bool log = true;
	Store() { l0 = vf_live; t = rt_init("S"); if (!t) fail("table_init failed"); }
	void o(const string &s) { if (log) ops(s); else transitions(1); }
	Val fresh(int ty, int k) { switch (ty) { case VT_INTEGER: return Int(k * 4294967297LL - 5); case VT_TINYINT: return Tiny(k & 1); case VT_DOUBLE: return Dbl(k / 8.0 - 3); case VT_VARCHAR: return Str(string((size_t)(k % 7), (char)('a' + k % 26)) + (k % 5 ? fmt("%d", k) : "")); case VT_DATE: { Val v = Int(k * 86400LL); v.ty = ty; return v; } default: { Val v = Int(k * 1001LL - 1); v.ty = ty; return v; } } }
	Row next() { Row r; seq++; for (size_t c = 0; c < cols.size(); c++) r.push_back((seq * 5 + (int)c * 3) % 4 == 0 ? Nul(cols[c].ty) : fresh(cols[c].ty, seq * 3 + (int)c)); return r; }
	vector<vcell> cells(const Row &r) { vector<vcell> v(r.size()); for (size_t i = 0; i < r.size(); i++) { memset(&v[i], 0, sizeof(vcell)); v[i].null = r[i].null; v[i].type = cols[i].ty; v[i].i = r[i].i; v[i].d = r[i].d; v[i].s = r[i].s.c_str(); } return v; }
	vit at(size_t i) { vit it; memset(&it, 0, sizeof it); for (size_t k = 0; k <= i; k++) if (!vt_next(t, &it)) fail("a row is missing"); return it; }
	void add(int ty, int prec = 12) { o(fmt("add column %s", tyn[ty])); Col c = C(fmt("c%d", names++), ty, prec); int ok = rt_add(t, c.name.c_str(), ty, prec); bool want = (int)cols.size() < vt_max_columns(); if (!ok != !want) fail(fmt("table_add_column answered %d with %zu columns", ok, cols.size())); if (!want) return; cols.push_back(c); Val z = Int(0); z.ty = ty; z.d = 0; for (auto &r : rows) r.push_back(z); }
	void rem(int i) { o(fmt("remove column %d of %zu", i, cols.size())); if (!rt_rem(t, i)) fail("table_rem_column failed"); cols.erase(cols.begin() + i); for (auto &r : rows) r.erase(r.begin() + i); }
	void ins() { o("insert"); Row r = next(); auto c = cells(r); if (!rt_insert(t, c.data())) fail("table_insert_row failed"); rows.push_back(r); }
	void del(int i) { o(fmt("delete row %d of %zu", i, rows.size())); vit it = at(i); if (!rt_delete(t, &it)) fail("table_delete_row failed"); rows.erase(rows.begin() + i); }
	void upd(int i) { o(fmt("update row %d of %zu", i, rows.size())); Row r = next(); auto c = cells(r); vit it = at(i); if (!rt_update(t, &it, c.data())) fail("table_update_row failed"); rows[i] = r; }
	void vac() { o("vacuum"); auto before = dump(); if (!rt_vacuum(t)) fail("table_vacuum failed"); if (dump() != before) fail("vacuum changed the live rows or their order: " + show(before) + " became " + show(dump())); int l, d, e; vt_slots(t, &l, &d, &e); if (d) fail(fmt("vacuum left %d deleted slots", d)); if (l != (int)rows.size()) fail("vacuum changed the number of live slots"); }
	vector<vector<string>> dump() { vector<vector<string>> r; vit it; memset(&it, 0, sizeof it); int n = vt_ncols(t); while (vt_next(t, &it)) { vector<string> row; for (int i = 0; i < n; i++) { vcell c; vt_cell(t, &it, i, &c); row.push_back(canon(c)); } r.push_back(row); if (r.size() > rows.size() + 5) break; } return r; }
	void check() {
		if (vt_ncols(t) != (int)cols.size()) fail(fmt("%d columns instead of %zu", vt_ncols(t), cols.size()));
		for (size_t i = 0; i < cols.size(); i++) { vcol c; vt_col(t, (int)i, &c); if (c.name != cols[i].name || c.type != cols[i].ty) fail(fmt("column %zu is %s", i, c.name)); }
		auto g = dump(); vector<vector<string>> w; for (auto &r : rows) { vector<string> x; for (auto &v : r) x.push_back(canon(v)); w.push_back(x); }
		uint64_t h = hash_str(show(w, 1000)); if (g != w) { std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w) fail("the table holds " + show(g) + " instead of " + show(w)); }
		int l, d, e; vt_slots(t, &l, &d, &e); state(mix(h, (uint64_t)(d * 1000 + e)));
	}
	void done() { if (!rt_destroy(t)) fail("table_destroy failed"); if (vf_live != l0) fail(fmt("%lld allocations survive the table", (long long)(vf_live - l0))); }
};
// one operation out of an alphabet whose size depends on nothing but the code; false when it does not apply
static const int NOP = 13;
static bool apply(Store &s, int op) {
	int n = (int)s.rows.size(), c = (int)s.cols.size();
	switch (op) {
	case 0: s.ins(); return true;
	case 1: if (n < 1) return false; s.del(0); return true;
	case 2: if (n < 2) return false; s.del(n - 1); return true;
	case 3: if (n < 3) return false; s.del(n / 2); return true;
	case 4: if (n < 1) return false; s.upd(0); return true;
	case 5: if (n < 2) return false; s.upd(n - 1); return true;
	case 6: s.vac(); return true;
	case 7: s.add(VT_INTEGER); return true;
	case 8: s.add(VT_VARCHAR); return true;
	case 9: if (c < 2) return false; s.rem(0); return true;
	case 10: if (c < 2) return false; s.rem(c - 1); return true;
	case 11: if (c < 3) return false; s.rem(c / 2); return true;
	default: s.ins(); s.ins(); s.ins(); return true;
	}
}
static void shape(Store &s, int n, int rot) { for (int i = 0; i < n; i++) s.add(tys[(i + rot) % 6], 12 + i % 9); }
struct Start { int cols, rot, rows; }; static vector<Start> starts;
static void run(const Start &st, const vector<int> &seq) { // the whole history is re-executed; checks at every step of the last op only matter, but all are made
	size_t m = mark(); Store s; shape(s, st.cols, st.rot); for (int i = 0; i < st.rows; i++) s.ins(); bool ok = true;
	for (size_t k = 0; k < seq.size() && ok; k++) { ok = apply(s, seq[k]); if (ok && k + 1 == seq.size()) { s.check(); } }
	if (ok) history(); s.done(); rewind_to(m);
}
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static int D = th ? 6 : 5, DW = th ? 5 : 3;
	// narrow starts: deep sequences; wide starts around a page boundary
	static const Start narrow[] = {{1, 0, 0}, {2, 1, 2}, {3, 1, 1}};
	uint64_t per = 1; for (int i = 0; i < D - 2; i++) per *= NOP; (void)per;
	add("sequences", fmt("every sequence of up to %d operations (insert 1 or 3, delete/update first/middle/last, vacuum, add, remove first/middle/last column) from three small tables", D), 3 * NOP * NOP * NOP, [](uint64_t i) {
		Radix r(i); Start st = narrow[r.take(3)]; vector<int> seq = {(int)r.take(NOP), (int)r.take(NOP), (int)r.take(NOP)};
		if (seq[1] == 0 && seq[2] == 0) { run(st, {seq[0]}); } if (seq[2] == 0) run(st, {seq[0], seq[1]});
		run(st, seq); std::function<void(int)> rec = [&](int d) { if (d == 0) return; for (int o = 0; o < NOP; o++) { seq.push_back(o); run(st, seq); rec(d - 1); seq.pop_back(); } }; rec(D - 3); });
	for (int c : {60, 61, 127}) { int perpage = 4096 / (24 + 8 * c); for (int n : {perpage - 1, perpage, perpage + 1, 2 * perpage - 1, 2 * perpage}) starts.push_back({c, c, n}); }
	add("boundary", fmt("every sequence of up to %d operations from tables whose last page has none, one or a few free slots", DW), starts.size() * NOP, [](uint64_t i) {
		Radix r(i); vector<int> seq = {(int)r.take(NOP)}; Start st = starts[r.take(starts.size())]; run(st, seq); std::function<void(int)> rec = [&](int d) { if (d == 0) return; for (int o = 0; o < NOP; o++) { seq.push_back(o); run(st, seq); rec(d - 1); seq.pop_back(); } }; rec(DW - 1); });
	add("widths", "every number of columns from 1 to 128, every number of rows around one and two full pages: insert, update, remove any column, add, vacuum", 128, [](uint64_t i) {
		int nc = (int)i + 1; int perpage; { Store s; shape(s, nc, (int)i); perpage = (int)(vt_page_size() / vt_row_size(s.t)); s.done(); }
		for (int b = 1; b <= 2; b++) for (int n = b * perpage - 1; n <= b * perpage + 1; n++) for (int form = 0; form < 4; form++) { if (n < 0) continue; size_t m = mark(); Store s; s.log = false; note(fmt("table of %d columns, %d rows, form %d", nc, n, form)); shape(s, nc, (int)i); for (int k = 0; k < n; k++) s.ins(); s.check();
			if (form == 0) { s.add(VT_VARCHAR); s.check(); s.ins(); if (nc > 1) s.rem(0); s.ins(); }
			else if (form == 1) { if (nc > 1) { s.rem(nc / 2); s.check(); s.ins(); s.rem((int)s.cols.size() - 1 ? (int)s.cols.size() - 1 : 0); if (s.cols.empty()) { s.done(); rewind_to(m); continue; } } s.ins(); }
			else if (form == 2) { for (int k = n - 1; k >= 0; k -= 2) s.del(k); s.check(); s.vac(); s.check(); s.ins(); s.ins(); }
			else { for (int k = 0; k < n; k += 3) s.upd(k); s.check(); if (n) s.del(n - 1); s.ins(); s.vac(); s.ins(); }
			s.check(); s.done(); history(); rewind_to(m); } });
	add("holes", "every subset of the rows of three pages deleted, then vacuumed, extended, narrowed or refilled", 512 * 4, [](uint64_t i) {
		Radix r(i); int form = (int)r.take(4); unsigned mask = (unsigned)r.take(512); Store s; shape(s, 127, 1); for (int k = 0; k < 9; k++) s.ins(); for (int k = 8; k >= 0; k--) if (mask >> k & 1) s.del(k); s.check();
		if (form == 0) { s.vac(); s.check(); } else if (form == 1) { s.add(VT_VARCHAR); s.check(); s.vac(); } else if (form == 2) { s.rem(3); s.check(); s.ins(); s.vac(); } else { s.ins(); s.ins(); s.check(); s.vac(); s.vac(); }
		s.check(); s.ins(); s.check(); if (!s.rows.empty()) s.upd((int)s.rows.size() - 1); s.check(); s.done(); history(); });
	add("columns", "removing and re-adding every column of tables with 1 to 24 columns, and every pair of columns of up to 9", 24, [](uint64_t i) {
		int nc = (int)i + 1; for (int a = 0; a < nc && nc > 1; a++) for (int b = 0; b < (nc <= 9 && nc > 2 ? nc - 1 : 1); b++) { size_t m = mark(); Store s; shape(s, nc, (int)i); for (int k = 0; k < 40; k++) s.ins(); s.rem(a); s.check(); if (nc > 2) { s.rem(b); s.check(); } s.add(tys[a % 6]); s.check(); s.ins(); s.upd(0); s.check(); s.done(); history(); rewind_to(m); } });
	return mc::run(argc, argv, {"C14", "model_checking", nullptr, {"an added column holds zero or the empty text in the rows that exist"}});
}
