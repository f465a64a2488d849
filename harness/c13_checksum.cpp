// C13: the checksum is the 16-bit end-around-carry sum without the stored checksum, plus the length.
#include "hdr.h"
#include "pe_checksum.h"
static uint32_t reference(const std::string& f, uint64_t at)
{
    uint32_t sum = 0; for (uint64_t i = 0; i < f.size(); i += 2) { if (i == at || i == at + 2) continue; uint32_t w = (unsigned char)f[i] | (i + 1 < f.size() ? (uint32_t)(unsigned char)f[i + 1] << 8 : 0); sum += w; }
    sum = (sum & 0xffff) + (sum >> 16); sum = (sum & 0xffff) + (sum >> 16); return sum + (uint32_t)f.size();
}
static bool THROWS_(std::istream& in) { try { calculate_checksum(in); return false; } catch (const pe_exception&) { return true; } }
static uint32_t sum(const std::string& f) { std::istringstream in(f); return calculate_checksum(in); }
static void check(const std::string& f, uint32_t lf) { uint32_t c = sum(f); sym_assert(c == reference(f, (uint64_t)lf + 88), "checksum equals the reference algorithm"); sym_reach("checksum"); }
static std::string base(unsigned n, uint32_t lf, unsigned fill) { std::string f(n, 0); for (unsigned i = 0; i < n; i++) f[i] = fill == 0 ? 0 : fill == 1 ? (char)0xff : (char)(i * 37 + 11); put16(f, 0, 0x5a4d); put32(f, 60, lf); return f; }
// k arbitrary bytes in files of every length modulo 4; ordinary, minimal and out-of-file header positions
static void bytes(unsigned k, unsigned fill, unsigned places = 3)
{
    static const uint32_t LF[3] = { 64, 0, 0x7ffffffc }; unsigned n = 64 + sym_choose(4, "tail") + 96 * sym_choose(2, "length"); uint32_t lf = LF[sym_choose(3, "lfanew")]; std::string f = base(n, lf, fill);
    unsigned a = sym_choose(places, "where"); a = a == 0 ? n - k : a == 1 ? n - k - 5 : 52; if (a < 64 && a + k > 60) a = 60 - k; symbytes(f, a, k, "bytes"); check(f, lf);
}
extern "C" void c13_bytes2() { bytes(2, sym_choose(2, "fill") + 1); }
extern "C" void c13_bytes4() { bytes(4, 2, 1); }
extern "C" void c13_bytes6() { bytes(6, 0, 1); }
// the stored checksum does not matter
extern "C" void c13_stored()
{
    static const uint32_t LF[3] = { 64, 0, 72 }; uint32_t lf = LF[sym_choose(3, "lfanew")]; std::string f = base(lf + 88 + 4 + sym_choose(5, "tail"), lf, 2), g = f; symbytes(g, lf + 88, 4, "stored"); put32(f, lf + 88, 0); sym_assert(sum(f) == sum(g), "the stored checksum does not influence the checksum"); sym_reach("stored");
}
// one changed 16-bit word is always detected (0x0000 and 0xffff are the same number in this sum)
extern "C" void c13_detect()
{
    static const unsigned AT[3] = { 146, 158, 160 }; unsigned n = 161 + sym_choose(2, "odd"), a = AT[sym_choose(3, "where")]; std::string f = base(n, 64, 2), g = f; symbytes(f, a, n - a < 2 ? 1 : 2, "old"); symbytes(g, a, n - a < 2 ? 1 : 2, "new");
    uint32_t x = n - a < 2 ? (uint8_t)f[a] : get16(f, a), y = n - a < 2 ? (uint8_t)g[a] : get16(g, a); sym_assume((x != y) & !((x == 0) & (y == 0xffff)) & !((x == 0xffff) & (y == 0))); sym_assert(sum(f) != sum(g), "a changed word changes the checksum"); sym_reach("detected");
}
extern "C" void c13_refuse() { unsigned n = sym_choose(70, "length"); std::string f(n, 0); symbytes(f, 0, n < 2 ? n : 2, "magic"); std::istringstream in(f); bool t = THROWS_(in); sym_assert(t == (n < 64 || get16(f, 0) != 0x5a4d), "a stream without a DOS header has no checksum"); }
// the running 32-bit sum wraps: one arbitrary aligned dword among others of every size
extern "C" void c13_wrap()
{
    unsigned n = 160 + sym_choose(2, "tail"), fill = sym_choose(2, "fill"); uint32_t lf = 64; std::string f = base(n, lf, fill * 2); unsigned a = sym_choose(2, "where") ? 120 : 156; symbytes(f, a, 4, "dword"); check(f, lf);
}
// files of more than 64 and 128 KB; the reference sum is folded as it grows
extern "C" void c13_long()
{
    static const unsigned N[7] = { 0x7fff, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20002, 0x40003 }; unsigned n = N[sym_choose(7, "length")], fill = sym_choose(3, "fill"); uint32_t lf = sym_choose(2, "lfanew") ? 64 : 0x7f00; std::string f = base(n, lf, fill); symbytes(f, n - 2, 2, "bytes"); uint32_t at = lf + 88, s = 0;
    for (unsigned i = 0; i < n; i += 2) { if (i == at || i == at + 2) continue; uint32_t w = (unsigned char)f[i] | (i + 1 < n ? (uint32_t)(unsigned char)f[i + 1] << 8 : 0); s += w; s = (s & 0xffff) + (s >> 16); } s = (s & 0xffff) + (s >> 16); sym_assert(sum(f) == s + n, "checksum equals the reference algorithm"); sym_reach("long");
}
