// Exhaustive explorer: enumerates every case of every suite, in parallel, in
// forked worker processes, so that a crash, an exit or a hang of the
// implementation is attributed to the case that was running.
//
//  * A suite is a finite, indexed space of cases (0..n-1); a case runs one or
//    many histories on the implementation (a case may itself be the root of an
//    exhaustive depth-first search).
//  * A chunk of consecutive cases runs in one fresh process, so every case has
//    a deterministic process history (the chunk prefix).
//  * A failure is replayed in a fresh process (alone, then with its chunk
//    prefix) before it is reported; a time-out is re-run alone with a longer
//    limit before it is called a hang.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <atomic>
#include <memory>
namespace mc {
struct Fail { std::string key, msg; };
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) { return hash_bytes(&b, 8, a); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---- inside a case ----
void op(const char *f, ...) __attribute__((format(printf, 1, 2))); // log one step of the history (a transition)
void ops(const std::string &s);
void note(const std::string &s);               // log without counting a transition
size_t mark(); void rewind_to(size_t);         // depth-first search: cut the log back
void state(uint64_t h);                        // a state reached (counted once per distinct hash)
void outcome(uint64_t h);                      // an observed outcome (counted once per distinct hash)
void history();                                // one complete history was run and agreed with the model
void transitions(uint64_t n);
[[noreturn]] void fail(const std::string &msg); // key = the history itself
[[noreturn]] void failk(const std::string &key, const std::string &msg);
bool thorough();
bool replaying();
void sample(const std::string &s);

struct Suite {
	std::string name, what;
	uint64_t n = 0;
	std::function<void(uint64_t)> run;
	uint64_t chunk = 0;        // 0: chosen so that there are ~64 chunks per worker
	double limit = 30;         // seconds per case
	bool serial = false;       // one worker only
};
void add(const Suite &s);
inline void add(const std::string &name, const std::string &what, uint64_t n, std::function<void(uint64_t)> run, uint64_t chunk = 0)
{ Suite s; s.name = name; s.what = what; s.n = n; s.run = run; s.chunk = chunk; add(s); }
// mixed radix decoding of a case number
struct Radix { uint64_t v; explicit Radix(uint64_t x) : v(x) {} uint64_t take(uint64_t n) { uint64_t r = v % n; v /= n; return r; } };
struct Config {
	const char *property;
	const char *level;               // model_checking | fault_enumeration | exploration
	const char *rule;                // for exploration / fault_enumeration
	std::vector<std::string> assumptions;
};
int run(int argc, char **argv, const Config &);
}
