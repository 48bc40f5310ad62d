// C06: the select list decides the columns of a result, their order and nothing else
#include "../seq.hpp"
using namespace sq; using namespace mc;
static const int tys[] = {VT_INTEGER, VT_VARCHAR, VT_DOUBLE, VT_TINYINT, VT_DATE, VT_DATETIME};
static From f(const string &t, int join = 0, CP on = nullptr, const string &alias = "") { From x; x.table = t; x.join = join; x.on = on; x.alias = alias; return x; }
static Val val(int ty, int k) { auto d = domain(ty); d.erase(d.begin()); return d[k % d.size()]; }
static void seqs(int n, bool repeat, vector<vector<int>> &out, vector<int> cur = {}) { if (!cur.empty()) out.push_back(cur); if ((int)cur.size() == n) return; for (int i = 0; i < n; i++) if (repeat || std::find(cur.begin(), cur.end(), i) == cur.end()) { auto c = cur; c.push_back(i); seqs(n, repeat, out, c); } }
static Tab shaped(const vector<int> &ty, const string &name = "T") {
	Tab t; t.name = name; for (size_t i = 0; i < ty.size(); i++) t.cols.push_back(C(fmt("c%zu", i), ty[i], 16 + (int)i)); int n = (int)ty.size();
	for (int mask = 0; mask < 1 << n; mask++) { Row r; for (int i = 0; i < n; i++) r.push_back(mask >> i & 1 ? Nul(ty[i]) : val(ty[i], mask + i)); t.rows.push_back(r); }
	return t;
}
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough"); static int NT = th ? 6 : 5;
	for (int n = 1; n <= (th ? 5 : 4); n++) { uint64_t total = 1; for (int i = 0; i < n; i++) total *= n == 5 ? 4 : NT;
		add(fmt("shapes%d", n), fmt("every sequence of %d column types, every NULL pattern, every select list (subset and order%s), *, qualified and aliased", n, n <= 3 ? ", with repetitions" : ""), total, [n](uint64_t i) {
			Radix r(i); vector<int> ty; for (int k = 0; k < n; k++) ty.push_back(tys[r.take(n == 5 ? 4 : NT)]); Tab t = shaped(ty); Sess s; s.fill(t);
			static map<int, vector<vector<int>>> memo; if (memo[n].empty()) seqs(n, n <= 3, memo[n]);
			int k = 0; for (auto &l : memo[n]) { size_t m = mark(); Sel q; string qual = k % 3 == 1 ? "T" : k % 3 == 2 ? "z" : ""; k++; for (int c : l) q.items.push_back(F(t.cols[c].name, qual)); q.from = {f("T", 0, nullptr, qual == "z" ? "z" : "")}; if (k % 4 == 0) q.where = isnull(F(t.cols[k % n].name, qual), k % 8 == 0); s.select(q); history(); rewind_to(m); }
			s.select(star("T")); s.select(star("T", isnull(F("c0")))); s.check("T"); s.close(); }); }
	add("wide", "every number of columns up to 128: each column alone, all of them in reverse, rotated, and every k-th", 128, [](uint64_t i) {
		int n = (int)i + 1; Tab t; t.name = "T"; for (int c = 0; c < n; c++) t.cols.push_back(C(fmt("c%d", c), tys[(c * 7 + n) % 6], 16)); 
		for (int r = 0; r < 5; r++) { Row x; for (int c = 0; c < n; c++) x.push_back((c + r) % 4 == 0 || r == 4 ? Nul(t.cols[c].ty) : val(t.cols[c].ty, c + r)); t.rows.push_back(x); }
		Sess s; s.fill(t); auto q = [&](const vector<int> &l) { size_t m = mark(); vector<string> v; for (int c : l) v.push_back(fmt("c%d", c)); s.select(list("T", v)); history(); rewind_to(m); };
		for (int c = 0; c < n; c += (n > 24 && !thorough() ? 1 + n / 12 : 1)) q({c});
		vector<int> l; for (int c = n - 1; c >= 0; c--) l.push_back(c); q(l); std::rotate(l.begin(), l.begin() + n / 3, l.end()); q(l);
		for (int k = 2; k <= 9; k++) { vector<int> v; for (int c = 0; c < n; c++) if (c % k == 0) v.push_back(c); q(v); std::reverse(v.begin(), v.end()); q(v); vector<int> o; for (int c = 0; c < n; c++) if (c % k) o.push_back(c); if (!o.empty()) q(o); }
		s.select(star("T")); s.check("T"); s.close(); });
	add("joins", "select lists over two joined tables of every pair of shapes of two columns", 36 * 36 / (th ? 1 : 2), [](uint64_t i) {
		Radix r(thorough() ? i : i * 2); vector<int> a = {tys[r.take(6)], tys[r.take(6)]}, b = {tys[r.take(6)], tys[r.take(6)]}; Tab A = shaped(a, "A"), B = shaped(b, "B"); A.cols.push_back(C("k")); B.cols.insert(B.cols.begin(), C("k")); B.cols[1].name = "d0"; int j = 0; for (auto &x : A.rows) x.push_back(Int(j++ % 3)); j = 0; for (auto &x : B.rows) x.insert(x.begin(), j++ % 3 ? Int(j % 3) : Nul());
		Sess s; s.fill(A); s.fill(B); vector<Opd> all = {F("c0"), F("c1", "A"), F("k", "A"), F("k", "B"), F("d0"), F("c1", "B")}; vector<vector<int>> L; seqs(6, false, L); CP on = cmp(NE, F("k", "A"), F("k", "B"));
		for (size_t l = i % 13; l < L.size(); l += 97) { size_t m = mark(); Sel q; for (int c : L[l]) q.items.push_back(all[c]); if (l & 1) { q.from = {f("A"), f("B", 1, on)}; } else { q.from = {f("B"), f("A")}; q.where = on; } s.select(q); history(); rewind_to(m); }
		Sel q; q.star = true; q.from = {f("A"), f("B", 1, on)}; s.select(q); s.check("A"); s.check("B"); s.close(); });
	add("groups", "select lists of grouped queries over every pair of column types", 36, [](uint64_t i) { Tab t = shaped({tys[i / 6], tys[i % 6], VT_INTEGER}); Sess s; s.fill(t);
		for (int w = 0; w < 2; w++) for (int c = -1; c < 3; c++) { Sel q; q.items = w ? vector<Opd>{F("c1"), F("c0")} : vector<Opd>{F("c0"), F("c1")}; q.count = c >= 0; q.count_at = c; q.group = {F("c0"), F("c1")}; q.from = {f("T")}; s.select(q); history(); } s.check("T"); s.close(); });
	nm::add_names(nm::SEL);
	seq::add_seq(nm::SEL);
	return mc::run(argc, argv, {"C06", "model_checking", nullptr, {"the order of the columns of * is not fixed; they are compared by name"}});
}
