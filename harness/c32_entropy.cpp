// C32: the entropy reported is the Shannon entropy of the bytes.
#include "img.h"
#include "entropy.h"
#include <cmath>
// Data: runs of fixed bytes with up to two arbitrary bytes among them.
struct Data
{
    std::string s; unsigned nv, k; unsigned char v[8]; uint32_t c[8]; uint8_t b[2];
    Data(): nv(0), k(0) {}
    void run(unsigned char x, uint32_t n) { if (!n) return; s.append(n, (char)x); for (unsigned i = 0; i < nv; i++) if (v[i] == x) { c[i] += n; return; } v[nv] = x; c[nv++] = n; }
    void any(uint8_t x) { b[k++] = x; s.push_back((char)x); }
    // number of bytes of the data equal to fixed value i, to arbitrary byte j
    uint32_t countv(unsigned i) const { uint32_t r = c[i]; for (unsigned j = 0; j < k; j++) r += (b[j] == v[i]); return (uint32_t)sym_concretize(r); }
    uint32_t countb(unsigned j) const { uint32_t r = 0; for (unsigned i = 0; i < nv; i++) r += c[i] * (uint32_t)(b[j] == v[i]); for (unsigned i = 0; i < k; i++) r += (b[j] == b[i]); return (uint32_t)sym_concretize(r); }
    double entropy() const { double n = (double)s.size(), h = 0; for (unsigned i = 0; i < nv; i++) h += c[i] / n * std::log2(n / countv(i)); for (unsigned j = 0; j < k; j++) h += 1 / n * std::log2(n / countb(j)); return h; }
};
static void near(double got, double want) { double d = got - want; sym_assert((d < 1e-9) & (d > -1e-9), "the entropy of the bytes"); sym_assert((got >= 0.) & (got <= 8.), "between 0 and 8"); }
static pe_base image(const std::string& a, const std::string& b, bool pe64)
{
    pe_base p = pe64 ? pe_base(pe_properties_64(), 0x1000, true, 2) : pe_base(pe_properties_32(), 0x1000, true, 2); section s; if (a.size()) { s.set_raw_data(a); p.add_section(s); } section t; if (b.size()) { t.set_raw_data(b); p.add_section(t); } return p;
}
static void all(const Data& d, bool only = false)
{
    double want = d.entropy(); unsigned how = only ? 0 : sym_choose(4, "how");
    switch (how)
    {
    case 0: near(entropy_calculator::calculate_entropy(d.s.data(), d.s.size()), want); break;
    case 1: { section s; s.set_raw_data(d.s); s.set_virtual_size(sym_u32("virtual_size")); s.set_size_of_raw_data(sym_u32("raw_size")); near(entropy_calculator::calculate_entropy(s), want); break; }
    case 2: { std::istringstream in("abc" + d.s); in.seekg(3); near(entropy_calculator::calculate_entropy(in), want); sym_assert((uint32_t)in.tellg() == 3, "the position is kept"); break; }
    case 3: { unsigned cut = sym_choose(2, "two_sections") ? (unsigned)d.s.size() / 2 : 0; pe_base p(image(d.s.substr(0, cut), d.s.substr(cut), false)); double h = entropy_calculator::calculate_entropy(p); near(h, want); break; }
    }
    sym_reach(how == 0 ? "buffer" : how == 1 ? "section" : how == 2 ? "stream" : "image");
}
// one arbitrary byte among runs of others
extern "C" void c32_one()
{
    static const unsigned char V[4] = { 0, 'a', 0x80, 0xff }; static const uint32_t N[6] = { 0, 1, 3, 100, 255, 300 }; Data d; d.run(V[sym_choose(4, "value")], N[sym_choose(6, "count")]); d.any(sym_u8("byte")); if (sym_choose(2, "more")) d.run('b', 2); all(d);
}
// two arbitrary bytes
static void two(bool wide)
{
    Data d; uint8_t x = sym_u8("first"), y = sym_u8("second"); if (wide) sym_assume((y < 2) | (y == 0x7f) | (y == 0x80) | (y == 0xff)); else sym_assume((y == 0x80) | (y == 0xff)); bool o = wide && sym_choose(2, "order"); d.any(o ? y : x); if (sym_choose(2, "fill")) d.run(0x80, 2); d.any(o ? x : y); all(d, true);
}
extern "C" void c32_two() { two(false); }
extern "C" void c32_twowide() { two(true); }
// every value once, or as often as counters overflow
extern "C" void c32_long()
{
    static const uint32_t N[5] = { 65534, 65535, 65536, 70000, 131072 }; Data d; d.run(0xfe, N[sym_choose(5, "count")]); if (sym_choose(2, "other")) d.run('b', 1000); d.any(sym_u8("byte")); all(d);
}
extern "C" void c32_flat() { std::string s; for (unsigned i = 0; i < 256; i++) s.push_back((char)i); unsigned p = (unsigned)sym_concretize(sym_u8("place")); uint8_t b = (uint8_t)p; (void)b; std::string t = s.substr(p) + s.substr(0, p); near(entropy_calculator::calculate_entropy(t.data(), t.size()), 8.); std::istringstream in(t); near(entropy_calculator::calculate_entropy(in), 8.); section x; x.set_raw_data(t); near(entropy_calculator::calculate_entropy(x), 8.); sym_reach("flat"); }
// streams: from the current position only; the end and damaged streams; empty buffers and sections
extern "C" void c32_empty()
{
    unsigned how = sym_choose(5, "how"); bool thrown = false; try {
        switch (how) {
        case 0: { char c = 0; entropy_calculator::calculate_entropy(&c, 0); break; }
        case 1: { section s; s.set_virtual_size(sym_u32("virtual_size")); s.set_size_of_raw_data(sym_u32("raw_size")); entropy_calculator::calculate_entropy(s); break; }
        case 2: { std::istringstream in(""); entropy_calculator::calculate_entropy(in); break; }
        case 3: { std::istringstream in("abc"); in.seekg(0, std::ios::end); entropy_calculator::calculate_entropy(in); break; }
        case 4: { std::istringstream in("abc"); in.setstate(std::ios::badbit); entropy_calculator::calculate_entropy(in); break; }
        } } catch (const pe_exception&) { thrown = true; }
    sym_assert(thrown, "nothing to calculate from is refused"); sym_reach("refused");
}
extern "C" void c32_position()
{
    Data d; unsigned n = 1 + sym_choose(5, "size"), p = sym_choose(4, "position"); for (unsigned i = 0; i < n; i++) d.run(i & 1 ? 'a' : 0xff, 1 + i); d.any(sym_u8("byte")); std::string pre; for (unsigned i = 0; i < p; i++) pre.push_back((char)sym_u8("before")); std::istringstream in(pre + d.s); in.seekg(p); double want = d.entropy(); double got = entropy_calculator::calculate_entropy(in); near(got, want); sym_assert((uint32_t)in.tellg() == p, "the position is kept"); sym_reach("position");
}
// images whose section headers give any sizes: the data stored is what counts
extern "C" void c32_headers()
{
    Data d; static const uint32_t N[4] = { 1, 3, 0x1ff, 0x200 }; uint32_t n = N[sym_choose(4, "count")]; d.run('a', n); d.run(0xff, 7); d.any(sym_u8("byte")); pe_base p = mkimage(sym_choose(2, "pe64")); size_t cut = sym_choose(2, "two_sections") ? n : 0;
    uint32_t va = sym_u32("address"), vs = sym_u32("virtual_size"), rp = sym_u32("raw_pointer"), rs = sym_u32("raw_size"), va2 = sym_u32("address2"), vs2 = sym_u32("virtual_size2"), rs2 = sym_u32("raw_size2"); uint32_t c = sym_u32("characteristics");
    if (cut) { attach(p, va2, vs2, 0, rs2, d.s.substr(0, cut)); attach(p, va, vs, rp, rs, d.s.substr(cut)).set_characteristics(c); } else attach(p, va, vs, rp, rs, d.s).set_characteristics(c);
    near(entropy_calculator::calculate_entropy(p), d.entropy()); for (size_t i = 0; i < p.get_image_sections().size(); i++) { const section& s = p.get_image_sections()[i]; entropy_calculator::calculate_entropy(s); } sym_reach("image");
}
