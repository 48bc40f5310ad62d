// Reference model of the SQL subset (a list of tuples per table and a direct
// reading of conditions), the renderer of statements, and a session that runs
// them on the implementation and compares.
#pragma once
#include "mc.hpp"
#include "shim.h"
#include "vf.h"
#include <ctime>
#include <cmath>
namespace sq {
using std::string; using std::vector; using std::map; using std::shared_ptr; using mc::fmt; using mc::fail;

// ---------------------------------------------------------------- values
struct Val { bool null = true; int ty = VT_INTEGER; int64_t i = 0; double d = 0; string s; };
inline Val Nul(int ty = VT_INTEGER) { Val v; v.ty = ty; return v; }
inline Val Int(int64_t i) { Val v; v.null = false; v.i = i; return v; }
inline Val Tiny(bool b) { Val v; v.null = false; v.ty = VT_TINYINT; v.i = b; return v; }
inline Val Dbl(double d) { Val v; v.null = false; v.ty = VT_DOUBLE; v.d = d; return v; }
inline Val Str(const string &s) { Val v; v.null = false; v.ty = VT_VARCHAR; v.s = s; return v; }
// days since 1970-01-01 of a proleptic Gregorian date
inline int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
inline Val Date(const string &s) { int y, m, d; sscanf(s.c_str(), "%d-%d-%d", &y, &m, &d); Val v; v.null = false; v.ty = VT_DATE; v.i = days(y, m, d) * 86400; v.s = s; return v; }
inline Val DTime(const string &s) { int y, m, d, H, M, S; sscanf(s.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &d, &H, &M, &S); Val v; v.null = false; v.ty = VT_DATETIME; v.i = days(y, m, d) * 86400 + H * 3600 + M * 60 + S; v.s = s; return v; }
inline string quote(const string &s) { string r = "'"; for (char c : s) { r += c; if (c == '\'') r += c; } return r + "'"; }
inline string lit(const Val &v) {
	if (v.null) return "NULL";
	switch (v.ty) {
	case VT_INTEGER: return fmt("%lld", (long long)v.i);
	case VT_TINYINT: return v.i ? "TRUE" : "FALSE";
	case VT_DOUBLE: { string r = fmt("%.17g", v.d); if (r.find_first_of(".e") == string::npos) r += ".0"; return r; }
	default: return quote(v.s);
	}
}
// canonical form of a value, for comparisons of rows
inline string canon(const Val &v) {
	if (v.null) return "NULL";
	switch (v.ty) {
	case VT_INTEGER: case VT_TINYINT: return fmt("%lld", (long long)v.i);
	case VT_DOUBLE: return fmt("%.17g", v.d == 0 ? 0.0 : v.d);
	case VT_DATE: case VT_DATETIME: return fmt("@%lld", (long long)v.i);
	default: return "'" + v.s + "'";
	}
}
inline string canon(const vcell &c) {
	if (c.null) return "NULL";
	switch (c.type) {
	case VT_INTEGER: case VT_TINYINT: return fmt("%lld", (long long)c.i);
	case VT_DOUBLE: return fmt("%.17g", c.d == 0 ? 0.0 : c.d);
	case VT_DATE: case VT_DATETIME: return fmt("@%lld", (long long)c.i);
	default: if (!c.terminated) return "(unterminated text)"; return "'" + string(c.s, c.slen) + "'";
	}
}
typedef vector<Val> Row;
inline string canon(const Row &r) { string s; for (auto &v : r) { if (!s.empty()) s += ","; s += canon(v); } return s; }

// ---------------------------------------------------------------- schema
struct Col { string name; int ty = VT_INTEGER; int prec = 8; bool notnull = false; string attrs; };
inline string tyname(const Col &c) { static const char *n[] = {"VARCHAR", "INT", "TINYINT", "DOUBLE", "DATE", "DATETIME"}; return c.ty == VT_VARCHAR ? fmt("VARCHAR(%d)", c.prec) : n[c.ty]; }
inline Col C(const string &name, int ty = VT_INTEGER, int prec = 16, bool notnull = false) { Col c; c.name = name; c.ty = ty; c.prec = prec; c.notnull = notnull; return c; }
struct Tab {
	string name; vector<Col> cols; vector<Row> rows; string clauses;
	int idx(const string &c) const { for (size_t i = 0; i < cols.size(); i++) if (cols[i].name == c) return (int)i; return -1; }
	string create() const { string s = "CREATE TABLE " + name + " ("; for (size_t i = 0; i < cols.size(); i++) s += (i ? ", " : "") + cols[i].name + " " + tyname(cols[i]) + (cols[i].notnull ? " NOT NULL" : "") + (cols[i].attrs.empty() ? "" : " " + cols[i].attrs); return s + clauses + ");"; }
};
typedef map<string, Tab> Db;

// ---------------------------------------------------------------- conditions
enum Op { EQ, NE, LT, LE, GT, GE };
static const char *const opname[] = {"=", "<>", "<", "<=", ">", ">="};
inline int mirror(int op) { static const int m[] = {EQ, NE, GT, GE, LT, LE}; return m[op]; }
struct Opd { bool field = false; string tab, col; Val v; };
inline Opd F(const string &col, const string &tab = "") { Opd o; o.field = true; o.col = col; o.tab = tab; return o; }
inline Opd L(const Val &v) { Opd o; o.v = v; return o; }
struct Cond; typedef shared_ptr<Cond> CP;
struct Cond { enum K { CMP, ISNULL, IN, AND, OR, XOR } k; int op = EQ; bool neg = false; Opd a, b; vector<Val> list; CP l, r; };
inline CP cmp(int op, Opd a, Opd b) { auto c = std::make_shared<Cond>(); c->k = Cond::CMP; c->op = op; c->a = a; c->b = b; return c; }
inline CP isnull(Opd a, bool neg = false) { auto c = std::make_shared<Cond>(); c->k = Cond::ISNULL; c->a = a; c->neg = neg; return c; }
inline CP in(Opd a, vector<Val> l, bool neg = false) { auto c = std::make_shared<Cond>(); c->k = Cond::IN; c->a = a; c->list = l; c->neg = neg; return c; }
inline CP bin(Cond::K k, CP l, CP r) { auto c = std::make_shared<Cond>(); c->k = k; c->l = l; c->r = r; return c; }

// how a statement is spelled
struct Style { int kw = 0 /*0 upper 1 lower 2 mixed*/, and_ = 0, or_ = 0, ne = 0, space = 0, parens = 0 /*0 minimal 1 every node 2 doubled*/; bool mirror = false; };
inline string kw(const string &w, const Style &st) { string r = w; for (size_t i = 0; i < r.size(); i++) r[i] = st.kw == 1 || (st.kw == 2 && i % 2) ? tolower(r[i]) : r[i]; return r; }
inline string opd(const Opd &o, const Style &st) { if (o.field) return o.tab.empty() ? o.col : o.tab + "." + o.col; if (o.v.null || o.v.ty == VT_TINYINT) return kw(lit(o.v), st); return lit(o.v); }
inline int prec(const Cond &c) { return c.k == Cond::OR ? 1 : c.k == Cond::XOR ? 2 : c.k == Cond::AND ? 3 : 9; }
inline string str(const Cond &c, const Style &st = Style(), int ctx = 0, bool right = false) {
	string r;
	switch (c.k) {
	case Cond::CMP: { string o = c.op == NE && st.ne ? "!=" : opname[st.mirror ? mirror(c.op) : c.op]; if (c.op == NE && st.ne) o = "!="; const Opd &x = st.mirror ? c.b : c.a, &y = st.mirror ? c.a : c.b; string sp = st.space == 1 ? "" : " "; r = opd(x, st) + sp + o + sp + opd(y, st); break; }
	case Cond::ISNULL: r = opd(c.a, st) + kw(c.neg ? " IS NOT NULL" : " IS NULL", st); break;
	case Cond::IN: { r = opd(c.a, st) + kw(c.neg ? " NOT IN (" : " IN (", st); for (size_t i = 0; i < c.list.size(); i++) r += (i ? ", " : "") + opd(L(c.list[i]), st); r += ")"; break; }
	case Cond::AND: r = str(*c.l, st, 3) + (st.and_ ? " && " : kw(" AND ", st)) + str(*c.r, st, 3, true); break;
	case Cond::OR: r = str(*c.l, st, 1) + (st.or_ ? " || " : kw(" OR ", st)) + str(*c.r, st, 1, true); break;
	case Cond::XOR: r = str(*c.l, st, 2) + kw(" XOR ", st) + str(*c.r, st, 2, true); break;
	}
	bool need = ctx && (prec(c) < ctx || (right && prec(c) == ctx));
	if (st.parens == 2) return "((" + r + "))";
	if (st.parens == 1 || need) return "(" + r + ")";
	return r;
}
// three-way comparison of two values of one type
inline int cmpv(const Val &a, const Val &b) {
	switch (a.ty) {
	case VT_DOUBLE: return a.d < b.d ? -1 : a.d > b.d;
	case VT_VARCHAR: return a.s < b.s ? -1 : a.s > b.s;
	default: return a.i < b.i ? -1 : a.i > b.i;
	}
}
inline bool evcmp(int op, const Val &a, const Val &b) {
	if (a.null || b.null) return false;
	int c = cmpv(a, b);
	switch (op) { case EQ: return c == 0; case NE: return c != 0; default: break; }
	if (a.ty == VT_TINYINT) return false; // truth values have no order
	return op == LT ? c < 0 : op == LE ? c <= 0 : op == GT ? c > 0 : c >= 0;
}
struct Env { // one row per table in FROM; the alias is the name a table is known by
	vector<const Tab *> tabs; vector<string> alias; vector<const Row *> rows;
	const Val &get(const Opd &o) const {
		for (size_t t = 0; t < tabs.size(); t++) { if (!o.tab.empty() && o.tab != alias[t]) continue; int i = tabs[t]->idx(o.col); if (i >= 0) return (*rows[t])[i]; }
		fprintf(stderr, "model: no field %s.%s\n", o.tab.c_str(), o.col.c_str()); abort();
	}
};
inline bool eval(const Cond &c, const Env &e) {
	auto val = [&](const Opd &o) { return o.field ? e.get(o) : o.v; };
	switch (c.k) {
	case Cond::CMP: return evcmp(c.op, val(c.a), val(c.b));
	case Cond::ISNULL: return val(c.a).null != c.neg;
	case Cond::IN: {
		Val a = val(c.a); if (a.null) return false;
		bool hit = false, nul = false;
		for (auto &v : c.list) { if (v.null) nul = true; else if (cmpv(a, v) == 0) hit = true; }
		return c.neg ? !hit && !nul : hit; }
	case Cond::AND: { bool l = eval(*c.l, e), r = eval(*c.r, e); return l && r; }
	case Cond::OR: { bool l = eval(*c.l, e), r = eval(*c.r, e); return l || r; }
	case Cond::XOR: return eval(*c.l, e) != eval(*c.r, e);
	}
	return false;
}
inline bool evalrow(const CP &c, const Tab &t, const Row &r) { if (!c) return true; Env e; e.tabs = {&t}; e.alias = {t.name}; e.rows = {&r}; return eval(*c, e); }

// ---------------------------------------------------------------- statements
inline string row_values(const Row &r) { string s = "("; for (size_t i = 0; i < r.size(); i++) s += (i ? ", " : "") + lit(r[i]); return s + ")"; }
inline string insert_sql(const string &t, const vector<Row> &rows, const vector<string> &cols = {}) {
	string s = "INSERT INTO " + t; if (!cols.empty()) { s += " ("; for (size_t i = 0; i < cols.size(); i++) s += (i ? ", " : "") + cols[i]; s += ")"; }
	s += " VALUES "; for (size_t i = 0; i < rows.size(); i++) s += (i ? ", " : "") + row_values(rows[i]); return s + ";";
}
inline string delete_sql(const string &t, const CP &c, const Style &st = Style()) { return kw("DELETE FROM ", st) + t + (c ? kw(" WHERE ", st) + str(*c, st) : "") + ";"; }
typedef vector<std::pair<string, Val>> Asgn;
inline string update_sql(const string &t, const Asgn &a, const CP &c, const Style &st = Style()) { string s = kw("UPDATE ", st) + t + kw(" SET ", st); for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + a[i].first + " = " + lit(a[i].second); return s + (c ? kw(" WHERE ", st) + str(*c, st) : "") + ";"; }
struct From { string table, alias; int join = 0 /*0 comma, 1 JOIN, 2 INNER JOIN*/; CP on; };
struct Sel { bool star = false, count = false /*COUNT(*) item*/; int count_at = -1; vector<Opd> items; vector<From> from; CP where; vector<Opd> group; };
inline string select_sql(const Sel &s, const Style &st = Style()) {
	string r = kw("SELECT ", st); bool first = true; size_t n = 0;
	auto item = [&](const string &x) { r += (first ? "" : ", ") + x; first = false; n++; };
	if (s.star) item("*");
	for (size_t i = 0; i <= s.items.size(); i++) { if (s.count && (int)i == (s.count_at < 0 ? (int)s.items.size() : s.count_at)) item(kw("COUNT(*)", st)); if (i < s.items.size()) item(opd(s.items[i], st)); }
	r += kw(" FROM ", st);
	for (size_t i = 0; i < s.from.size(); i++) {
		auto &f = s.from[i];
		if (i) r += f.join == 0 ? ", " : kw(f.join == 1 ? " JOIN " : " INNER JOIN ", st);
		r += f.table + (f.alias.empty() ? "" : kw(" AS ", st) + f.alias);
		if (f.join && i) r += kw(" ON ", st) + str(*f.on, st);
	}
	if (s.where) r += kw(" WHERE ", st) + str(*s.where, st);
	if (!s.group.empty()) { r += kw(" GROUP BY ", st); for (size_t i = 0; i < s.group.size(); i++) r += (i ? ", " : "") + opd(s.group[i], st); }
	return r + ";";
}
// the model's answer: column names ("T.c" / "COUNT(*)"), rows as canonical cells
struct Ans { vector<string> cols; vector<vector<string>> rows; bool star = false; };
inline Ans select_model(const Db &db, const Sel &s) {
	Ans a; a.star = s.star; vector<const Tab *> T; vector<string> al;
	for (auto &f : s.from) { T.push_back(&db.at(f.table)); al.push_back(f.alias.empty() ? f.table : f.alias); }
	struct It { int t, c; }; vector<It> its; // t = -1: COUNT(*)
	auto find = [&](const Opd &o) { for (size_t t = 0; t < T.size(); t++) { if (!o.tab.empty() && o.tab != al[t]) continue; int c = T[t]->idx(o.col); if (c >= 0) return It{(int)t, c}; } fprintf(stderr, "model: no field %s\n", o.col.c_str()); abort(); };
	if (s.star) for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < T[t]->cols.size(); c++) its.push_back({(int)t, (int)c});
	for (size_t i = 0; i <= s.items.size(); i++) { if (s.count && (int)i == (s.count_at < 0 ? (int)s.items.size() : s.count_at)) its.push_back({-1, 0}); if (i < s.items.size()) its.push_back(find(s.items[i])); }
	for (auto &i : its) a.cols.push_back(i.t < 0 ? "COUNT(*)" : T[i.t]->name + "." + T[i.t]->cols[i.c].name);
	vector<vector<const Row *>> hits; vector<size_t> ix(T.size(), 0);
	// nested loops over every combination of one row per table
	std::function<void(size_t, Env &)> rec = [&](size_t t, Env &e) {
		if (t == T.size()) { if (s.where && !eval(*s.where, e)) return; for (auto &f : s.from) if (f.join && f.on && !eval(*f.on, e)) return; hits.push_back(e.rows); return; }
		for (auto &r : T[t]->rows) { e.rows[t] = &r; rec(t + 1, e); }
	};
	Env e; e.tabs = T; e.alias = al; e.rows.resize(T.size()); rec(0, e);
	auto cell = [&](const vector<const Row *> &h, It i) { return canon((*h[i.t])[i.c]); };
	if (s.group.empty() && !s.count) { for (auto &h : hits) { vector<string> r; for (auto &i : its) r.push_back(cell(h, i)); a.rows.push_back(r); } return a; }
	if (s.group.empty()) { a.rows.push_back(vector<string>(its.size(), fmt("%zu", hits.size()))); return a; }
	vector<It> g; for (auto &o : s.group) g.push_back(find(o));
	map<vector<string>, std::pair<size_t, size_t>> groups; vector<vector<string>> order;
	for (size_t h = 0; h < hits.size(); h++) { vector<string> k; for (auto &i : g) k.push_back(cell(hits[h], i)); if (!groups.count(k)) { groups[k] = {h, 0}; order.push_back(k); } groups[k].second++; }
	for (auto &k : order) { auto &p = groups[k]; vector<string> r; for (auto &i : its) r.push_back(i.t < 0 ? fmt("%zu", p.second) : cell(hits[p.first], i)); a.rows.push_back(r); }
	return a;
}

// ---------------------------------------------------------------- session
struct Got { int status; string msg; size_t naff; vector<string> cols; vector<int> types; vector<vector<string>> rows; int64_t leaked; };
inline string show(const vector<vector<string>> &rows, size_t max = 12) { string s = fmt("%zu rows", rows.size()); for (size_t i = 0; i < rows.size() && i < max; i++) { s += i ? " | " : ": "; for (size_t j = 0; j < rows[i].size(); j++) s += (j ? "," : "") + rows[i][j]; } if (rows.size() > max) s += " | ..."; return s; }
struct Sess {
	vdb *db; Db m; bool quiet = false; string tag; /* names the session in the history */
	int pause_at = -1; std::function<void()> pause; /* called once, before that row of the next result is read */
	Sess() { db = vdb_open(); if (!db) fail("database_open failed"); }
	~Sess() { if (db) vdb_close(db); }
	Sess(const Sess &) = delete;
	Got exec(const string &sql) {
		if (!quiet) mc::ops(tag + sql); else mc::transitions(1);
		Got g; int64_t l0 = vf_live; vres r; vdb_exec(db, sql.c_str(), &r);
		g.status = r.status; g.msg = r.msg ? r.msg : ""; g.naff = r.naff;
		if (r.status == VS_ROWS) {
			int n = vt_ncols(r.table); for (int i = 0; i < n; i++) { vcol c; vt_col(r.table, i, &c); g.cols.push_back(c.name); g.types.push_back(c.type); }
			vit it; memset(&it, 0, sizeof it); int k; auto held = [&] { if (pause && pause_at == (int)g.rows.size()) { auto f = pause; pause = nullptr; f(); } };
			while ((held(), k = vres_step(&r, &it)) == 1) { vector<string> row; for (int i = 0; i < n; i++) { vcell c; vt_cell(r.table, &it, i, &c); if (c.type == VT_INTEGER && !c.null && vres_int(&r, i) != c.i) fail(fmt("query_column_int64 of column %d gives %lld, the row holds %lld", i, (long long)vres_int(&r, i), (long long)c.i)); row.push_back(canon(c)); } g.rows.push_back(row); if (g.rows.size() > 2000000) fail("the result set never ends"); }
			if (k != 0) fail("query_cur_step reported an error in a complete result");
		}
		vres_free(&r); g.leaked = vf_live - l0;
		return g;
	}
	void ok(const string &sql, int64_t naff = -1) {
		Got g = exec(sql);
		if (g.status != VS_EXEC) fail(fmt("status %d (%s) instead of success", g.status, g.msg.c_str()));
		if (naff >= 0 && (int64_t)g.naff != naff) fail(fmt("%zu rows reported as affected, %lld were", g.naff, (long long)naff));
	}
	void err(const string &sql) {
		Got g = exec(sql);
		if (g.status != VS_ERROR) fail(fmt("status %d instead of an error", g.status));
		if (g.msg.empty()) fail("an error without a message");
	}
	// ---- model-backed statements
	void create(const Tab &t) { ok(t.create(), 0); m[t.name] = t; m[t.name].rows.clear(); }
	void insert(const string &t, const vector<Row> &rows, const vector<string> &cols = {}) {
		Tab &T = m[t]; ok(insert_sql(t, rows, cols), (int64_t)rows.size());
		for (auto &r : rows) { if (cols.empty()) { T.rows.push_back(r); continue; } Row x; for (auto &c : T.cols) x.push_back(Nul(c.ty)); for (size_t i = 0; i < cols.size(); i++) x[T.idx(cols[i])] = r[i]; T.rows.push_back(x); }
	}
	void fill(const Tab &t) { create(t); if (!t.rows.empty()) insert(t.name, t.rows); }
	void del(const string &t, const CP &c, const Style &st = Style()) {
		Tab &T = m[t]; vector<Row> keep; size_t n = 0;
		for (auto &r : T.rows) if (evalrow(c, T, r)) n++; else keep.push_back(r);
		ok(delete_sql(t, c, st), (int64_t)n); T.rows = keep; check(t);
	}
	void update(const string &t, const Asgn &a, const CP &c, const Style &st = Style()) {
		Tab &T = m[t]; size_t n = 0; vector<Row> rows = T.rows;
		for (auto &r : rows) if (evalrow(c, T, r)) n++;
		for (auto &r : rows) { Row o = r; if (evalrow(c, T, o)) for (auto &x : a) { r[T.idx(x.first)] = x.second; r[T.idx(x.first)].ty = T.cols[T.idx(x.first)].ty; } }
		ok(update_sql(t, a, c, st), (int64_t)n); T.rows = rows; check(t);
	}
	Got select(const Sel &s, const Style &st = Style()) {
		Ans a = select_model(m, s); Got g = exec(select_sql(s, st)); compare(g, a); return g;
	}
	void compare(const Got &g, const Ans &a) {
		if (g.status != VS_ROWS) fail(fmt("status %d (%s) instead of a result", g.status, g.msg.c_str()));
		vector<int> map_; // result column of each expected column
		if (!a.star) { if (g.cols != a.cols) fail("the result has the columns " + join(g.cols) + " instead of " + join(a.cols)); for (size_t i = 0; i < a.cols.size(); i++) map_.push_back((int)i); }
		else {
			auto x = g.cols, y = a.cols; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
			if (x != y) fail("the result has the columns " + join(g.cols) + " instead of " + join(a.cols));
			std::map<string, vector<int>> where; for (size_t i = 0; i < g.cols.size(); i++) where[g.cols[i]].push_back((int)i);
			for (auto &c : a.cols) { auto &w = where[c]; map_.push_back(w.front()); w.erase(w.begin()); }
		}
		vector<vector<string>> got, want = a.rows;
		for (auto &r : g.rows) { vector<string> x; for (int i : map_) x.push_back(r[i]); got.push_back(x); }
		std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
		if (got != want) fail("the result has " + show(got) + " -- instead of " + show(want));
		uint64_t h = mc::hash_str(show(want, 100000)); mc::outcome(h);
	}
	static string join(const vector<string> &v) { string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s; }
	// stored content of a table, read from its rows
	vector<vector<string>> dump(const string &t) {
		void *T = vdb_table(db, t.c_str()); if (!T) fail("table " + t + " is gone");
		vector<vector<string>> r; vit it; memset(&it, 0, sizeof it); int n = vt_ncols(T);
		while (vt_next(T, &it)) { vector<string> row; for (int i = 0; i < n; i++) { vcell c; vt_cell(T, &it, i, &c); row.push_back(canon(c)); } r.push_back(row); }
		return r;
	}
	void check(const string &t) {
		auto got = dump(t); vector<vector<string>> want; const Tab &T = m[t];
		for (auto &r : T.rows) { vector<string> x; for (auto &v : r) x.push_back(canon(v)); want.push_back(x); }
		std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
		if (got != want) fail("table " + t + " holds " + show(got) + " -- instead of " + show(want));
		mc::state(mc::hash_str(t + show(want, 100000)));
	}
	void check_schema(const string &t) {
		void *T = vdb_table(db, t.c_str()); if (!T) fail("table " + t + " is gone"); const Tab &M = m[t];
		if (vt_ncols(T) != (int)M.cols.size()) fail(fmt("table %s has %d columns instead of %zu", t.c_str(), vt_ncols(T), M.cols.size()));
		for (size_t i = 0; i < M.cols.size(); i++) { vcol c; vt_col(T, (int)i, &c); if (c.name != M.cols[i].name || c.type != M.cols[i].ty || !c.nullable != M.cols[i].notnull) fail(fmt("column %zu of table %s is not the one declared (%s, type %d, %s)", i, t.c_str(), c.name, c.type, c.nullable ? "nullable" : "not nullable")); }
	}
	void check_all() {
		static char names[600][160]; int n = vdb_tables(db, names, 600); if (n != (int)m.size()) fail(fmt("the database has %d tables instead of %zu", n, m.size()));
		for (auto &p : m) { check_schema(p.first); check(p.first); }
	}
	void close() { vdb_close(db); db = nullptr; if (vf_locks_held) fail("a lock is still held"); }
};
}
