// C18: bit operations, every bitmap content / bit / operation within bounds
#include "../mc.hpp"
#include "../shim_ds.h"
#include "../vf.h"
#include <csetjmp>
#include <map>
#include <set>
#include <sys/mman.h>
using namespace mc;
static jmp_buf jb; static volatile int armed;
static void on_exit_(int) { if (armed) longjmp(jb, 1); }
static const char *opn[] = {"bit_test", "bit_set", "bit_clear", "bit_toggle"};
// one operation on a copy of `before`, compared with the definition on every bit
static void one(const std::vector<unsigned char> &before, int op_, uint64_t bit)
{
	size_t len = before.size();
	unsigned char *p = (unsigned char *)malloc(len); // exact size: ASAN guards both ends
	memcpy(p, before.data(), len);
	std::vector<unsigned char> want = before;
	bool inside = bit / 8 < len; int r = -1, refused = 0;
	if (inside) {
		unsigned char m = 1u << (bit % 8);
		if (op_ == 1) want[bit / 8] |= m; else if (op_ == 2) want[bit / 8] &= ~m; else if (op_ == 3) want[bit / 8] ^= m;
	}
	armed = 1;
	if (!setjmp(jb)) {
		switch (op_) { case 0: r = b_test(p, bit, len); break; case 1: b_set(p, bit, len); break; case 2: b_clear(p, bit, len); break; default: b_toggle(p, bit, len); }
	} else refused = 1;
	armed = 0;
	transitions(1);
	std::string d = fmt("%s(bit %llu, %zu bytes) on", opn[op_], (unsigned long long)bit, len);
	auto hex = [](const unsigned char *c, size_t n) { std::string s; for (size_t i = 0; i < n && i < 48; i++) s += fmt(" %02x", c[i]); return s; };
	if (memcmp(p, want.data(), len)) { note(d + hex(before.data(), len)); fail("gives" + hex(p, len) + ", expected" + hex(want.data(), len)); }
	if (inside && refused) { note(d + hex(before.data(), len)); fail("a valid bit number is refused"); }
	if (inside && op_ == 0 && r != ((before[bit / 8] >> (bit % 8)) & 1)) { note(d + hex(before.data(), len)); fail(fmt("returns %d", r)); }
	outcome(hash_bytes(p, len, op_ * 7 + r + 2 * refused));
	free(p);
}
int main(int argc, char **argv)
{
	vf_on_exit = on_exit_;
	bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	static int cap = th ? 96 : 64; (void)cap;
	add("small", "bitmaps of 1 and 2 bytes: every content, every bit, every operation", 256 + 65536, [](uint64_t i) {
		std::vector<unsigned char> b; uint64_t c;
		if (i < 256) { b = {(unsigned char)i}; c = i; } else { c = i - 256; b = {(unsigned char)c, (unsigned char)(c >> 8)}; }
		note(fmt("content %llx of %zu bytes", (unsigned long long)c, b.size()));
		state(hash_bytes(b.data(), b.size(), b.size()));
		for (int o = 0; o < 4; o++) for (uint64_t bit = 0; bit < b.size() * 8; bit++) one(b, o, bit);
		history();
	}, 1024);
	static int L = th ? 600 : 140;
	add("lengths", fmt("bitmaps of 1..%d bytes: every bit and operation on 6 contents and on every single-bit content and complement", L), L, [](uint64_t i) {
		size_t len = i + 1;
		note(fmt("bitmap of %zu bytes", len));
		for (int c = 0; c < 6; c++) {
			std::vector<unsigned char> b(len);
			for (size_t k = 0; k < len; k++) b[k] = c == 0 ? 0 : c == 1 ? 0xff : c == 2 ? 0xaa : c == 3 ? 0x55 : c == 4 ? (unsigned char)(k * 37 + 11) : (unsigned char)(k & 1 ? 0xff : 0);
			state(hash_bytes(b.data(), len, len));
			for (int o = 0; o < 4; o++) for (uint64_t bit = 0; bit < len * 8; bit++) one(b, o, bit);
			history();
		}
		if (len <= (size_t)(thorough() ? 40 : 12)) for (size_t sb = 0; sb < len * 8; sb++) for (int inv = 0; inv < 2; inv++) {
			std::vector<unsigned char> b(len, inv ? 0xff : 0); b[sb / 8] ^= 1u << (sb % 8);
			state(hash_bytes(b.data(), len, len));
			for (int o = 0; o < 4; o++) for (uint64_t bit = 0; bit < len * 8; bit++) one(b, o, bit);
			history();
		}
	}, 1);
	add("beyond", "bit numbers at and beyond the end of the bitmap (up to 2^64-1): nothing outside is touched, nothing inside changes", 40, [](uint64_t i) {
		size_t len = i + 1;
		note(fmt("bitmap of %zu bytes, bits beyond it", len));
		for (int c = 0; c < 2; c++) {
			std::vector<unsigned char> b(len, c ? 0xff : 0);
			std::vector<uint64_t> bits;
			for (uint64_t k = 0; k < 80; k++) bits.push_back(len * 8 + k);
			for (uint64_t k : {255ull, 256ull, 257ull, 511ull, 512ull, 65535ull, 65536ull, 65536ull * 8, 0xffffffffull, 0x100000000ull, 0x100000007ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull}) if (k >= len * 8) bits.push_back(k);
			for (int o = 0; o < 4; o++) for (uint64_t bit : bits) { op("%s bit %llu", opn[o], (unsigned long long)bit); one(b, o, bit); }
			history();
		}
	}, 1);
	static int W = th ? 2100 : 1060;
	add("long", fmt("bitmaps of %d..%d bytes: every bit and operation on a mixed content", L + 1, W), W - L, [](uint64_t i) {
		size_t len = i + 1 + L; note(fmt("bitmap of %zu bytes", len));
		std::vector<unsigned char> b(len); for (size_t k = 0; k < len; k++) b[k] = (unsigned char)(k * 37 + 11 + (k >> 8) * 5);
		state(hash_bytes(b.data(), len, len));
		for (int o = 0; o < 4; o++) { if (!thorough() && len % 4 != (size_t)o && o) continue; for (uint64_t bit = 0; bit < len * 8; bit++) one(b, o, bit); }
		history();
	}, 4);
	add("longer", "bitmaps of 2^k-1, 2^k and 2^k+1 bytes up to 1 MiB: the bits around every power of two and every multiple of 4096 bytes, and the last ones", 3 * 10, [](uint64_t i) {
		size_t len = ((size_t)1 << (11 + i / 3)) + i % 3 - 1; note(fmt("bitmap of %zu bytes", len));
		std::vector<unsigned char> b(len); for (size_t k = 0; k < len; k++) b[k] = (unsigned char)(k * 37 + 11 + (k >> 8) * 5 + (k >> 16));
		state(hash_bytes(b.data(), len, len)); std::set<uint64_t> bits;
		auto near = [&](uint64_t p) { for (int d = -9; d <= 9; d++) if (p + d < len * 8) bits.insert(p + d); };
		near(0); near(len * 8); for (int e = 3; e < 40; e++) near(1ull << e);
		if (len < 70000) for (uint64_t p = 0; p < len * 8; p += 32768) near(p);
		for (int o = 0; o < 4; o++) for (uint64_t bit : bits) one(b, o, bit);
		history();
	}, 1);
	add("huge", "a bitmap of 2^29+64 bytes (more than 2^32 bits): the bits around 2^31 and 2^32, set, tested, toggled and cleared, with the whole bitmap looked at after each group", 2, [](uint64_t i) {
		size_t len = ((size_t)1 << 29) + 64; unsigned char *p = (unsigned char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { note("no memory for it"); return; }
		std::map<uint64_t, int> on; std::vector<uint64_t> bits;
		for (uint64_t c : {0ull, 1ull << 31, 1ull << 32, (unsigned long long)len * 8 - 9}) for (int d = -8; d <= 8; d++) if (c + d < len * 8) bits.push_back(c + d);
		auto whole = [&](const char *when) { std::map<uint64_t, unsigned char> want; for (auto &x : on) if (x.second) want[x.first / 8] |= 1u << (x.first % 8);
			static const unsigned char zero[4096] = {}; for (size_t k = 0; k < len; k += 4096) { size_t n = std::min((size_t)4096, len - k); auto it = want.lower_bound(k); if (it == want.end() || it->first >= k + n) { if (memcmp(p + k, zero, n)) fail(fmt("%s: a byte of the page at %zu changed", when, k)); continue; }
				for (size_t j = k; j < k + n; j++) { auto w = want.find(j); if (p[j] != (w == want.end() ? 0 : w->second)) fail(fmt("%s: byte %zu is %02x, expected %02x", when, j, p[j], w == want.end() ? 0 : w->second)); } } };
		for (size_t k = i; k < bits.size(); k += 2) { b_set(p, bits[k], len); on[bits[k]] = 1; transitions(1); } whole("after setting");
		for (auto b : bits) { transitions(1); if (b_test(p, b, len) != on[b]) { note(fmt("bit_test(%llu)", (unsigned long long)b)); fail("wrong bit"); } }
		for (auto b : bits) { b_toggle(p, b, len); on[b] ^= 1; transitions(1); } whole("after toggling");
		for (size_t k = 0; k < bits.size(); k += 3) { b_clear(p, bits[k], len); on[bits[k]] = 0; transitions(1); } whole("after clearing");
		state(i); outcome(i); history(); munmap(p, len);
	}, 1);
	sample("bit_toggle(bit 9, 2 bytes) on every content 0000..ffff");
	return run(argc, argv, {"C18", "model_checking", "", {"every content up to 2 bytes; selected contents of longer bitmaps"}});
}
