// Dates and times around the clock changes of several time zones: comparisons,
// groups and joins go by what is written, whatever the zone of the process.
// Rows are told apart by an id; stored seconds are not looked at, only which rows
// a statement selects. (Text order is time order for these fixed-width texts.)
#pragma once
#include "names.hpp"
namespace tz {
using namespace sq;
struct Zone { const char *tz; vector<const char *> days; };
inline const vector<Zone> &zones() {
	static vector<Zone> z = {
		{"UTC0", {"2024-03-10", "1970-01-01"}}, {"EST5EDT,M3.2.0,M11.1.0", {"2024-03-10", "2024-11-03"}}, {"NZST-12NZDT,M9.5.0,M4.1.0/3", {"2024-09-29", "2024-04-07"}},
		{"XXX-0:30YYY,M10.1.0,M4.1.0", {"2024-10-06", "2024-04-07"}}, {"<+0545>-5:45", {"1970-01-01", "2024-02-29"}}, {"AAA0BBB,M3.5.0/0,M10.5.0/0", {"2024-03-31", "2024-10-27"}}};
	return z;
}
inline vector<string> texts(const Zone &z, int ty) {
	vector<string> r; static const char *const tm[] = {"00:00:00", "00:29:59", "00:30:00", "00:59:59", "01:00:00", "01:30:00", "01:59:59", "02:00:00", "02:30:00", "02:59:59", "03:00:00", "03:30:00", "04:00:00", "23:00:00", "23:59:59"};
	for (auto d : z.days) {
		int y, m, dd; sscanf(d, "%d-%d-%d", &y, &m, &dd); auto at = [&](int k) { static const int len[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int Y = y, M = m, D = dd + k; if (D < 1) { if (--M < 1) { M = 12; Y--; } D = len[M - 1]; if (M == 2 && Y % 4) D = 28; } else if (D > (M == 2 && Y % 4 ? 28 : len[M - 1])) { D = 1; if (++M > 12) { M = 1; Y++; } } return fmt("%04d-%02d-%02d", Y, M, D); };
		if (ty == VT_DATE) { for (int k = -1; k <= 1; k++) r.push_back(at(k)); continue; }
		r.push_back(at(-1) + " 23:30:00"); for (auto t : tm) r.push_back(at(0) + " " + t); r.push_back(at(1) + " 00:00:00");
	}
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
struct In { ~In() { setenv("TZ", "UTC", 1); tzset(); } In(const char *z) { setenv("TZ", z, 1); tzset(); } };
inline bool holds(int op, const string &a, const string &b) { int c = a.compare(b); return op == EQ ? c == 0 : op == NE ? c != 0 : op == LT ? c < 0 : op == LE ? c <= 0 : op == GT ? c > 0 : c >= 0; }
inline void ids(Sess &s, const string &sql, vector<int> want) {
	Got g = s.exec(sql); if (g.status != VS_ROWS) fail(fmt("status %d (%s) instead of a result", g.status, g.msg.c_str()));
	vector<int> got; for (auto &r : g.rows) got.push_back(atoi(r.back().c_str())); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
	if (got != want) { string a, b; for (int i : got) a += fmt(" %d", i); for (int i : want) b += fmt(" %d", i); fail("the rows with these ids are selected:" + a + " -- instead of:" + b); }
	mc::outcome(mc::hash_str(sql + fmt("%zu", want.size())));
}
inline void add_tz(int kinds) {
	using namespace nm;
	mc::add("time zones", "DATE and DATETIME values half an hour apart around the clock changes of 6 time zones (and none): every value as the literal of every comparison", zones().size() * 2, [kinds](uint64_t i) {
		const Zone &z = zones()[i / 2]; int ty = i % 2 ? VT_DATE : VT_DATETIME; In in(z.tz); mc::op("(TZ=%s)", z.tz); auto v = texts(z, ty); int n = (int)v.size();
		auto sub = [&](auto ok) { vector<int> r; for (int k = 0; k < n; k++) if (ok(k)) r.push_back(k); return r; };
		auto fresh = [&](Sess &s, const char *t = "T") {
			s.ok(fmt("CREATE TABLE %s (%sid INT, %sa %s, %sb %s);", t, *t == 'R' ? "r" : "", *t == 'R' ? "r" : "", ty == VT_DATE ? "DATE" : "DATETIME", *t == 'R' ? "r" : "", ty == VT_DATE ? "DATE" : "DATETIME")); string q = fmt("INSERT INTO %s VALUES ", t);
			for (int k = 0; k < n; k++) q += fmt("%s(%d, '%s', '%s')", k ? ", " : "", k, v[k].c_str(), v[n - 1 - k].c_str()); s.ok(q + ";", n); };
		auto one = [&](auto body) { size_t m = mc::mark(); Sess s; fresh(s); body(s); s.close(); mc::rewind_to(m); };
		for (int o = EQ; o <= GE; o++) {
			if (kinds & WH) one([&](Sess &s) {
				for (int k = 0; k < n; k++) { ids(s, fmt("SELECT id FROM T WHERE a %s '%s';", opname[o], v[k].c_str()), sub([&](int j) { return holds(o, v[j], v[k]); })); ids(s, fmt("SELECT id FROM T WHERE '%s' %s a;", v[k].c_str(), opname[o]), sub([&](int j) { return holds(o, v[k], v[j]); })); }
				ids(s, fmt("SELECT id FROM T WHERE a %s b;", opname[o]), sub([&](int j) { return holds(o, v[j], v[n - 1 - j]); })); });
			for (int k = 0; k < n; k++) {
				auto want = sub([&](int j) { return holds(o, v[j], v[k]); }), rest = sub([&](int j) { return !holds(o, v[j], v[k]); });
				if (kinds & DEL) one([&](Sess &s) { s.ok(fmt("DELETE FROM T WHERE a %s '%s';", opname[o], v[k].c_str()), (int64_t)want.size()); ids(s, "SELECT id FROM T;", rest); });
				if (kinds & UPD) one([&](Sess &s) { s.ok(fmt("UPDATE T SET b = NULL WHERE a %s '%s';", opname[o], v[k].c_str()), (int64_t)want.size()); ids(s, "SELECT id FROM T WHERE b IS NULL;", want); });
			}
			if (kinds & (DEL | UPD)) one([&](Sess &s) { auto w = sub([&](int j) { return holds(o, v[j], v[n - 1 - j]); }); if (kinds & UPD) { s.ok(fmt("UPDATE T SET id = 0 WHERE a %s b;", opname[o]), (int64_t)w.size()); } else s.ok(fmt("DELETE FROM T WHERE a %s b;", opname[o]), (int64_t)w.size()); });
			if (kinds & JN) one([&](Sess &s) { fresh(s, "R"); vector<int> w; for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) if (holds(o, v[j], v[k])) w.push_back(j);
				ids(s, fmt("SELECT rid, id FROM T JOIN R ON a %s ra;", opname[o]), w); });
		}
		if (kinds & WH) one([&](Sess &s) { for (int k = 0; k < n; k++) { int q = (k + 1) % n; ids(s, fmt("SELECT id FROM T WHERE a IN ('%s', '%s');", v[k].c_str(), v[q].c_str()), {k, q}); ids(s, fmt("SELECT id FROM T WHERE a NOT IN ('%s', '%s');", v[k].c_str(), v[q].c_str()), sub([&](int j) { return j != k && j != q; })); } });
		if (kinds & UPD) for (int k = 0; k < n; k++) one([&](Sess &s) { int q = (k * 7 + 1) % n; s.ok(fmt("UPDATE T SET b = '%s' WHERE id = %d;", v[k].c_str(), q), 1); ids(s, fmt("SELECT id FROM T WHERE b = '%s';", v[k].c_str()), n - 1 - k == q ? vector<int>{q} : vector<int>{n - 1 - k, q}); });
		if (kinds & GRP) one([&](Sess &s) { for (int k = 0; k < n; k += 2) s.ok(fmt("UPDATE T SET b = '%s' WHERE id = %d;", v[k].c_str(), n - 1 - k), 1);
			ids(s, "SELECT a, id FROM T GROUP BY a, id;", sub([&](int) { return true; })); Got g = s.exec("SELECT a, COUNT(*) FROM T GROUP BY a;"); if ((int)g.rows.size() != n) fail(fmt("%zu groups instead of %d", g.rows.size(), n)); for (auto &r : g.rows) if (r[1] != "1") fail("a group of " + r[1] + " rows instead of 1"); });
	}, 1);
}
}
