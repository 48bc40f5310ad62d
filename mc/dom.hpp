// small value domains, one per column type, chosen at the edges of the type
#pragma once
#include "sql.hpp"
namespace sq {
inline vector<Val> domain(int ty, bool small = false) {
	switch (ty) {
	case VT_INTEGER: if (small) return {Nul(ty), Int(0), Int(1), Int(-1), Int(4294967297LL)};
		return {Nul(ty), Int(0), Int(1), Int(-1), Int(2), Int(2147483647), Int(-2147483649LL), Int(4294967296LL), Int(4294967297LL), Int(INT64_MAX), Int(INT64_MIN)};
	case VT_TINYINT: return {Nul(ty), Tiny(true), Tiny(false)};
	case VT_DOUBLE: if (small) return {Nul(ty), Dbl(0), Dbl(1.5), Dbl(-1.5), Dbl(1.2500000001)};
		return {Nul(ty), Dbl(0), Dbl(1.5), Dbl(-1.5), Dbl(0.1), Dbl(0.10000000000000002), Dbl(1e17), Dbl(-1e-300), Dbl(9007199254740993.0), Dbl(1.7976931348623157e308)};
	case VT_VARCHAR: if (small) return {Nul(ty), Str(""), Str("a"), Str("ab"), Str("b")};
		return {Nul(ty), Str(""), Str("a"), Str("A"), Str("ab"), Str("b"), Str(" a"), Str("it's"), Str("0123456789abcde")};
	case VT_DATE: if (small) return {Nul(ty), Date("2024-02-29"), Date("1969-12-31"), Date("2024-03-01")};
		return {Nul(ty), Date("1970-01-01"), Date("1969-12-31"), Date("2024-02-29"), Date("2024-03-01"), Date("1901-12-13"), Date("2038-01-20"), Date("2100-02-28")};
	default: if (small) return {Nul(ty), DTime("2024-02-29 23:59:59"), DTime("1969-12-31 00:00:00"), DTime("2024-02-29 23:59:58")};
		return {Nul(ty), DTime("1970-01-01 00:00:00"), DTime("1969-12-31 23:59:58"), DTime("2024-02-29 23:59:59"), DTime("2024-03-01 00:00:00"), DTime("1901-12-13 20:45:51"), DTime("2038-01-19 03:14:08"), DTime("2024-02-29 12:00:00")};
	}
}
static const char *const tyn[] = {"VARCHAR", "INT", "TINYINT", "DOUBLE", "DATE", "DATETIME"};
inline vector<int> ops_of(int ty) { if (ty == VT_VARCHAR) return {EQ, NE}; return {EQ, NE, LT, LE, GT, GE}; }
// every condition over one field of a type: comparisons with every value of the
// domain on either side, NULL, IS [NOT] NULL and [NOT] IN up to a list length
inline vector<CP> atoms(const Opd &f, int ty, int maxlist, bool small = false) {
	vector<CP> r; auto dom = domain(ty, small);
	for (auto &v : dom) for (int o : ops_of(ty)) { if (v.null && o > NE) continue; r.push_back(cmp(o, f, L(v))); r.push_back(cmp(o, L(v), f)); }
	for (int n = 0; n < 2; n++) r.push_back(isnull(f, n));
	for (auto &v : dom) for (int n = 0; n < 2; n++) r.push_back(in(f, {v}, n));
	if (maxlist >= 2) for (auto &v : dom) for (auto &w : dom) for (int n = 0; n < 2; n++) r.push_back(in(f, {v, w}, n));
	if (maxlist >= 3) for (auto &v : dom) for (auto &w : dom) for (auto &x : dom) for (int n = 0; n < 2; n++) r.push_back(in(f, {v, w, x}, n));
	return r;
}
// every condition comparing two fields of one type
inline vector<CP> pairs(const Opd &x, const Opd &y, int ty) {
	vector<CP> r; for (int o : ops_of(ty)) { r.push_back(cmp(o, x, y)); r.push_back(cmp(o, y, x)); r.push_back(cmp(o, x, x)); }
	return r;
}
// every binary tree with n leaves, every connective, every choice of leaf
inline uint64_t trees(int n, uint64_t leaves) { if (n == 1) return leaves; uint64_t s = 0; for (int k = 1; k < n; k++) s += trees(k, leaves) * trees(n - k, leaves) * 3; return s; }
inline CP tree(int n, const vector<CP> &leaf, uint64_t i) {
	if (n == 1) return leaf[i];
	for (int k = 1; k < n; k++) {
		uint64_t a = trees(k, leaf.size()), b = trees(n - k, leaf.size()), c = a * b * 3;
		if (i < c) { mc::Radix r(i); int o = (int)r.take(3); uint64_t l = r.take(a); return bin(o == 0 ? Cond::AND : o == 1 ? Cond::OR : Cond::XOR, tree(k, leaf, l), tree(n - k, leaf, r.take(b))); }
		i -= c;
	}
	abort();
}
inline Tab T3(const string &name = "T") { Tab t; t.name = name; t.cols = {C("p"), C("q"), C("r")}; vector<Val> d = {Nul(), Int(0), Int(1)}; for (auto &a : d) for (auto &b : d) for (auto &c : d) t.rows.push_back({a, b, c}); return t; }
inline vector<CP> tree_atoms() { return {cmp(EQ, F("p"), L(Int(1))), isnull(F("q")), in(F("r"), {Int(1), Int(2)}), cmp(NE, F("p"), F("r"))}; }
// a table of n columns of 8 bytes so that a page holds a known, small number of rows
inline Tab wide(const string &name, int extra) { Tab t; t.name = name; t.cols = {C("id")}; for (int i = 0; i < extra; i++) t.cols.push_back(C(fmt("c%d", i), i % 3 == 2 ? VT_VARCHAR : i % 3 == 1 ? VT_DOUBLE : VT_INTEGER)); return t; }
inline Row wide_row(const Tab &t, int64_t id) {
	Row r; for (size_t i = 0; i < t.cols.size(); i++) { if (i == 0) { r.push_back(Int(id)); continue; } if ((id + (int64_t)i) % 5 == 0) { r.push_back(Nul(t.cols[i].ty)); continue; }
		r.push_back(t.cols[i].ty == VT_VARCHAR ? Str(fmt("r%lldc%zu", (long long)id, i)) : t.cols[i].ty == VT_DOUBLE ? Dbl(id + i / 1024.0) : Int(id * 1000 + (int64_t)i)); }
	return r;
}
inline Sel star(const string &t, CP w = nullptr) { Sel s; s.star = true; From f; f.table = t; s.from = {f}; s.where = w; return s; }
inline Sel list(const string &t, const vector<string> &cols, CP w = nullptr) { Sel s; for (auto &c : cols) s.items.push_back(F(c)); From f; f.table = t; s.from = {f}; s.where = w; return s; }
}
