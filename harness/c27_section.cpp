// C27: section objects.
#include "img.h"
static std::string raw40(const section& s) { return std::string((const char*)&s.get_raw_header(), 40); }
extern "C" void c27_name()
{
    section s; sym_make(&s.get_raw_header(), 40, "header"); std::string h = raw40(s); unsigned n = sym_choose(11, "n"); std::string nm = sym_str(n, "name"); bool nul = false; for (unsigned i = 0; i < n; i++) { nul = nul | (nm[i] == 0); } sym_assume(!nul);
    s.set_name(nm); unsigned k = n < 8 ? n : 8; std::string g = s.get_name(); sym_assert(g.size() == k, "the name reads back with at most eight characters"); sym_assert(sym_eqmem(g.data(), nm.data(), k), "the name reads back");
    std::string h2 = raw40(s); std::string w = h; for (unsigned i = 0; i < 8; i++) w[i] = i < k ? nm[i] : 0; sym_assert(sym_eqmem(w.data(), h2.data(), 40), "setting the name changes only the name"); sym_reach("name");
}
extern "C" void c27_nameread()
{
    section s; sym_make(&s.get_raw_header(), 40, "header"); std::string h = raw40(s), g = s.get_name(); unsigned k = 0; while (k < 8 && h[k]) k++;
    sym_assert(g.size() == k && sym_eqmem(g.data(), h.data(), k), "a stored name is reported up to its terminator"); sym_reach("nameread");
}
extern "C" void c27_flags()
{
    section s; sym_make(&s.get_raw_header(), 40, "header"); std::string h = raw40(s); uint32_t c = get32(h, S_CHAR), bit = 0; bool v = sym_choose(2, "value"), r = false; unsigned k = sym_choose(5, "flag"); section* q = 0;
    static const uint32_t bits[5] = { 0x40000000u, 0x80000000u, 0x20000000u, 0x10000000u, 0x02000000u }; bit = bits[k];
    sym_assert(s.readable() == ((c & bits[0]) != 0) && s.writeable() == ((c & bits[1]) != 0) && s.executable() == ((c & bits[2]) != 0) && s.shared() == ((c & bits[3]) != 0) && s.discardable() == ((c & bits[4]) != 0), "flag tests report the stored characteristics");
    switch (k) { case 0: q = &s.readable(v); r = s.readable(); break; case 1: q = &s.writeable(v); r = s.writeable(); break; case 2: q = &s.executable(v); r = s.executable(); break; case 3: q = &s.shared(v); r = s.shared(); break; default: q = &s.discardable(v); r = s.discardable(); }
    sym_assert(q == &s && r == v, "the flag reads back"); put32(h, S_CHAR, v ? c | bit : c & ~bit); std::string h2 = raw40(s); sym_assert(sym_eqmem(h.data(), h2.data(), 40), "a flag change affects only that flag"); sym_assert(s.get_characteristics() == (v ? c | bit : c & ~bit), "characteristics agree"); sym_reach("flags");
}
extern "C" void c27_fields()
{
    section s; sym_make(&s.get_raw_header(), 40, "header"); std::string h = raw40(s); uint32_t v = sym_u32("value"), g = 0; unsigned off = 0;
    sym_assert(s.get_virtual_size() == get32(h, S_VSIZE) && s.get_virtual_address() == get32(h, S_VA) && s.get_size_of_raw_data() == get32(h, S_RAWSIZE) && s.get_pointer_to_raw_data() == get32(h, S_RAWPTR) && s.get_characteristics() == get32(h, S_CHAR), "stored fields are reported");
    switch (sym_choose(5, "field")) { case 0: s.set_virtual_size(v); g = s.get_virtual_size(); off = S_VSIZE; break; case 1: s.set_virtual_address(v); g = s.get_virtual_address(); off = S_VA; break; case 2: s.set_size_of_raw_data(v); g = s.get_size_of_raw_data(); off = S_RAWSIZE; break;
        case 3: s.set_pointer_to_raw_data(v); g = s.get_pointer_to_raw_data(); off = S_RAWPTR; break; default: s.set_characteristics(v); g = s.get_characteristics(); off = S_CHAR; }
    sym_assert(g == v, "the field reads back"); put32(h, off, v); std::string h2 = raw40(s); sym_assert(sym_eqmem(h.data(), h2.data(), 40), "setting a field changes only that field"); sym_reach("fields");
}
extern "C" void c27_sizes()
{
    section s; uint32_t vs = sym_u32("vs"), rs = sym_u32("rs"); uint32_t sa = 1u << sym_choose(32, "salign"); s.set_virtual_size(vs); s.set_size_of_raw_data(rs);
    uint32_t base = (uint32_t)sym_ite((vs == 0) & (rs != 0), rs, vs); sym_assume(base <= 0u - sa); uint32_t a = s.get_aligned_virtual_size(sa); sym_assert((a & (sa - 1)) == 0 && a >= base && a - base < sa, "aligned virtual size is the virtual size (raw size when that is zero) rounded up");
    sym_assume(rs <= 0u - sa); uint32_t r = s.get_aligned_raw_size(sa); sym_assert((r & (sa - 1)) == 0 && r >= rs && r - rs < sa, "aligned raw size is the raw size rounded up"); sym_reach("sizes");
}
// sequences of data operations against a model: the raw bytes, and while mapped the zero-extended bytes
static void seq(unsigned steps)
{
    section s; unsigned L = sym_choose(3, "len") * 9, vs = sym_choose(4, "vs") * 11; std::string m = sym_str(L, "data"); bool zero = sym_choose(2, "rawsize"); uint32_t rs = zero ? 0 : L; const uint32_t sa = 16; bool stale = false; // the virtual size was changed while mapped: only the raw bytes are specified until the next access to raw data
    s.set_raw_data(m); s.set_virtual_size(vs); s.set_size_of_raw_data(rs); 
    for (unsigned i = 0; i < steps; i++) {
        uint32_t base = vs ? vs : rs, al = (base + sa - 1) & ~(sa - 1); unsigned vl = al > m.size() ? al : (unsigned)m.size(); const section& cs = s; std::string full = m; full.resize(vl, 0);
        switch (sym_choose(7, "op")) {
            case 0: { const std::string& v = cs.get_virtual_data(sa); if (stale) { sym_assert(v.size() >= m.size() && sym_eqmem(v.data(), m.data(), m.size()), "the virtual data begins with the raw data"); break; } sym_assert(v.size() == vl && sym_eqmem(v.data(), full.data(), vl), "the virtual data is the raw data padded with zeros to the aligned virtual size"); sym_assert(s.empty() == m.empty(), "emptiness is about raw data, also while mapped"); break; }
            case 1: { stale = false; const std::string& v = cs.get_raw_data(); sym_assert(v.size() == m.size() && sym_eqmem(v.data(), m.data(), m.size()), "the raw data is what was stored"); break; }
            case 2: { if (stale) { s.get_raw_data(); stale = false; } std::string& v = s.get_virtual_data(sa); sym_assert(v.size() == vl, "the virtual data has the aligned size"); if (vl) { unsigned k = sym_choose(2, "pos") ? vl - 1 : 0; char b = (char)sym_u8("byte"); v[k] = b; if (k < m.size()) m[k] = b; else { std::string w = full; w[k] = b; const std::string& v2 = cs.get_virtual_data(sa); sym_assert(v2.size() == vl && sym_eqmem(v2.data(), w.data(), vl), "a write to virtual data is visible while mapped"); } s.get_raw_data(); } break; }
            case 3: { stale = false; std::string& v = s.get_raw_data(); v.push_back((char)sym_u8("more")); m = v; if (!zero) { rs = (uint32_t)m.size(); s.set_size_of_raw_data(rs); } break; }
            case 4: { stale = false; m = sym_str(5, "new"); s.set_raw_data(m); if (!zero) { rs = 5; s.set_size_of_raw_data(rs); } break; }
            case 5: { section t(s); s.get_raw_data().push_back('x'); s.get_raw_data() = std::string("gone"); s = t; break; }
            case 6: { bool keep = sym_choose(2, "mapped"); if (keep) { s.get_virtual_data(sa); stale = true; } else { s.get_raw_data(); stale = false; } vs = sym_choose(2, "newvs") * 20; s.set_virtual_size(vs); break; }
        }
        sym_assert(s.empty() == m.empty(), "emptiness is about raw data");
    }
    const section& cs = s; const std::string& v = cs.get_raw_data(); sym_assert(v.size() == m.size() && sym_eqmem(v.data(), m.data(), m.size()), "mapping and unmapping preserves the raw data"); sym_reach("seq");
}
extern "C" void c27_seq2() { seq(2); }
extern "C" void c27_seq3() { seq(3); }
extern "C" void c27_seq4() { seq(4); }
