// C09: every arithmetic expression against exact 64-bit and IEEE double arithmetic
#include "../dom.hpp"
using namespace sq; using namespace mc;
struct Node { int op; /* -1 literal, 5 unary minus */ int lit; shared_ptr<Node> a, b; }; typedef shared_ptr<Node> NP;
static const char opc[] = "+-*/%";
static uint64_t count(int n, uint64_t L) { if (n == 1) return L; uint64_t s = 0; for (int k = 1; k < n; k++) s += 5 * count(k, L) * count(n - k, L); return s; }
static NP make(int n, uint64_t L, uint64_t i) {
	if (n == 1) return NP(new Node{-1, (int)i, nullptr, nullptr});
	for (int k = 1; k < n; k++) { uint64_t a = count(k, L), b = count(n - k, L), c = 5 * a * b; if (i < c) { Radix r(i); int o = (int)r.take(5); uint64_t x = r.take(a); return NP(new Node{o, 0, make(k, L, x), make(n - k, L, r.take(b))}); } i -= c; }
	abort();
}
static int size(const NP &n) { return n->op == -1 ? 1 : 1 + size(n->a) + (n->b ? size(n->b) : 0); }
// the tree with its k-th node negated
static NP negate(const NP &n, int k) { if (k == 0) return NP(new Node{5, 0, n, nullptr}); if (n->op == -1) return n; int sa = size(n->a); if (k - 1 < sa) return NP(new Node{n->op, 0, negate(n->a, k - 1), n->b}); return NP(new Node{n->op, 0, n->a, negate(n->b, k - 1 - sa)}); }
enum { OKV, NULLV, OVER };
struct R { int st; int64_t i; double d; };
static int64_t ipart(double v) { return v >= 9223372036854775808.0 ? INT64_MAX : v <= -9223372036854775808.0 ? INT64_MIN : (int64_t)v; }
static R ev(const NP &n, const vector<Val> &lit_) {
	if (n->op == -1) { const Val &v = lit_[n->lit]; return {v.null ? NULLV : OKV, v.i, v.d}; }
	bool dbl = lit_[0].ty == VT_DOUBLE; R a = ev(n->a, lit_); if (a.st == OVER) return a;
	if (n->op == 5) { if (a.st) return a; if (dbl) return {OKV, 0, -a.d}; if (a.i == INT64_MIN) return {OVER, 0, 0}; return {OKV, -a.i, 0}; }
	R b = ev(n->b, lit_); if (b.st == OVER) return b; if (a.st || b.st) return {NULLV, 0, 0};
	if (dbl) { double r; switch (n->op) { case 0: r = a.d + b.d; break; case 1: r = a.d - b.d; break; case 2: r = a.d * b.d; break; case 3: if (b.d == 0) return {NULLV, 0, 0}; r = a.d / b.d; break; default: { int64_t q = ipart(b.d); if (!q) return {NULLV, 0, 0}; r = q == -1 ? 0 : (double)(ipart(a.d) % q); } } if (!std::isfinite(r)) return {OVER, 0, 0}; return {OKV, 0, r}; }
	__int128 r; switch (n->op) { case 0: r = (__int128)a.i + b.i; break; case 1: r = (__int128)a.i - b.i; break; case 2: r = (__int128)a.i * b.i; break; case 3: if (!b.i) return {NULLV, 0, 0}; r = (__int128)a.i / b.i; break; default: if (!b.i) return {NULLV, 0, 0}; r = (__int128)a.i % b.i; }
	if (r > INT64_MAX || r < INT64_MIN) return {OVER, 0, 0}; return {OKV, (int64_t)r, 0};
}
static string strn(const NP &n, const vector<Val> &l, int style, int ctx = 0, bool right = false) {
	string r; int p; const char *sp = style & 1 ? "" : " ";
	if (n->op == -1) { r = lit(l[n->lit]); return style & 2 ? "(" + r + ")" : r; }
	if (n->op == 5) { p = 3; string x = strn(n->a, l, style, 4); r = "-" + (x[0] == '-' ? "(" + x + ")" : x); }
	else { p = n->op < 2 ? 1 : 2; string x = strn(n->b, l, style, p, true); r = strn(n->a, l, style, p) + sp + opc[n->op] + (n->op == 1 && x[0] == '-' && (style & 1) ? " " : sp) + x; }
	if (style & 2 || p < ctx || (right && p == ctx)) return "(" + r + ")"; return r;
}
static vector<Val> ints(int k) { vector<Val> v = {Int(2), Int(3), Int(-7), Int(0), Int(10), Int(INT64_MAX), Int(4294967296LL), Int(-1), Int(INT64_MIN)}; v.resize(k); return v; }
static vector<Val> dbls(int k) { vector<Val> v = {Dbl(1.5), Dbl(-2.25), Dbl(0), Dbl(0.1), Dbl(1e300), Dbl(3), Dbl(-1), Dbl(1e19)}; v.resize(k); return v; }
// several expressions per INSERT; those that overflow are checked alone
static void batch(const vector<Val> &L, const vector<NP> &e, int style) {
	bool dbl = L[0].ty == VT_DOUBLE; Sess s; s.ok(dbl ? "CREATE TABLE T (id INT, x DOUBLE);" : "CREATE TABLE T (id INT, x INT);"); vector<vector<string>> w; string q; size_t n = 0; vector<string> texts;
	auto flush = [&]() { if (q.empty()) return; size_t m = mark(); s.ok("INSERT INTO T VALUES " + q + ";", (int64_t)w.size()); auto g = s.dump("T"); if (g.size() != w.size()) fail(fmt("%zu rows instead of %zu", g.size(), w.size())); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
		for (size_t i = 0; i < w.size(); i++) if (g[i] != w[i]) failk(texts[strtoul(w[i][0].c_str(), 0, 10)], texts[strtoul(w[i][0].c_str(), 0, 10)] + " gives " + g[i][1] + " instead of " + w[i][1]); else outcome(hash_str(w[i][1])); s.quiet = true; s.ok("DELETE FROM T;"); s.quiet = false; rewind_to(m); w.clear(); q.clear(); texts.clear(); history(); };
	for (auto &x : e) { R r = ev(x, L); string t = strn(x, L, style); n++; transitions(1);
		if (r.st == OVER) { size_t m = mark(); s.err("INSERT INTO T VALUES (0, " + t + ");"); if (!s.dump("T").empty()) fail("a failed INSERT left rows"); rewind_to(m); continue; }
		q += fmt("%s(%zu, ", q.empty() ? "" : ", ", texts.size()) + t + ")"; w.push_back({fmt("%zu", texts.size()), r.st == NULLV ? "NULL" : dbl ? canon(Dbl(r.d)) : canon(Int(r.i))}); texts.push_back(t); if (texts.size() == 32) flush(); }
	flush(); s.close();
}
static void suite(const string &name, int leaves, const vector<Val> &L, int styles, bool neg, uint64_t stride = 1) {
	uint64_t total = count(leaves, L.size()) / stride, per = 64 * (neg ? 1 : 4);
	add(name, fmt("every expression of %d literals out of %zu, with %d spellings%s", leaves, L.size(), styles, neg ? ", and with each subexpression negated" : ""), (total + per - 1) / per, [=](uint64_t i) {
		for (int st = 0; st < styles; st++) { vector<NP> e; for (uint64_t k = i * per; k < std::min(total, (i + 1) * per); k++) { NP t = make(leaves, L.size(), k); e.push_back(t); if (neg) for (int x = 0; x < size(t); x++) e.push_back(negate(t, x)); } batch(L, e, st); } });
}
int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER"); bool th = tier && !strcmp(tier, "thorough");
	suite("int1", 1, ints(9), 4, true); suite("int2", 2, ints(9), 4, true); suite("int3", 3, ints(th ? 9 : 6), th ? 4 : 2, true); suite("int3wide", 3, ints(9), 1, false); suite("int4", 4, ints(th ? 5 : 3), 1, th);
	if (th) suite("int5", 5, ints(2), 1, false);
	suite("double1", 1, dbls(8), 4, true); suite("double2", 2, dbls(8), 4, true); suite("double3", 3, dbls(th ? 8 : 4), th ? 4 : 2, true); if (th) suite("double4", 4, dbls(4), 1, false);
	add("null", "every expression of two or three operands, some of which become NULL by a division by zero, at every place of a statement of two rows and three columns", 6 * 25, [](uint64_t i) {
		Radix r(i); int pos = (int)r.take(6), o1 = (int)r.take(5), o2 = (int)r.take(5); const char *sub[] = {"(1 / 0)", "(5 % 0)", "(2 * 3)", "(7 - (4 % (1 - 1)))"};
		for (auto a : sub) for (auto b : sub) { bool na = a != sub[2], nb = b != sub[2]; string e = fmt("%s %c %s %c 4", a, opc[o1], b, opc[o2]); bool null = na || nb; int64_t v = 0; 
			if (!null) { NP l(new Node{-1, 0}), m(new Node{-1, 0}), c(new Node{-1, 1}); vector<Val> L = {Int(6), Int(4)}; bool hi1 = o1 >= 2, hi2 = o2 >= 2; NP t; if (!hi1 && hi2) t = NP(new Node{o1, 0, l, NP(new Node{o2, 0, m, c})}); else t = NP(new Node{o2, 0, NP(new Node{o1, 0, l, m}), c}); R x = ev(t, L); if (x.st == OVER) continue; null = x.st == NULLV; v = x.i; }
			size_t m = mark(); Sess s; s.ok("CREATE TABLE T (a INT, b INT, c INT);"); string q = "INSERT INTO T VALUES "; vector<vector<string>> w; for (int row = 0; row < 2; row++) { q += row ? ", (" : "("; w.push_back({}); for (int c = 0; c < 3; c++) { bool me = row * 3 + c == pos; q += (c ? ", " : "") + (me ? e : fmt("%d", row * 3 + c)); w.back().push_back(me ? null ? "NULL" : fmt("%lld", (long long)v) : fmt("%d", row * 3 + c)); } q += ")"; }
			s.ok(q + ";", 2); if (s.dump("T") != w) fail("the table holds " + show(s.dump("T")) + " instead of " + show(w)); s.close(); history(); rewind_to(m); } });
	add("chains", "sums, differences, products and quotients of up to 200 literals, without parentheses and nested to the left and to the right", 4 * 3 * 40, [](uint64_t i) {
		Radix r(i); int o = (int)r.take(4), form = (int)r.take(3), n = (int)r.take(40) * 5 + 2; NP t(new Node{-1, 0}); vector<Val> L = {Int(1), Int(o == 2 ? 1 : 3), Int(INT64_MAX)}; if (o == 3) t->lit = 2;
		for (int k = 1; k < n; k++) { NP l(new Node{-1, k % 4 == 1}); t = form == 2 ? NP(new Node{o, 0, l, t}) : NP(new Node{o, 0, t, l}); } batch(L, {t}, form == 1 ? 2 : 0); });
	return mc::run(argc, argv, {"C09", "model_checking", nullptr, {"integer division truncates, % takes the sign of the dividend; % of doubles works on their integer parts; results out of range are errors", "an expression is over literals of one numeric type"}});
}
