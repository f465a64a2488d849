// C08: RVA / VA / file offset conversions.
#include "img.h"
static void va32(bool pe64)
{
    pe_base p = mkimage(pe64); uint64_t base = pe64 ? sym_u64("base") : sym_u32("base"); p.set_image_base_64(base); uint32_t rva = sym_u32("rva");
    bool fits = base <= 0xffffffffu && base + rva <= 0xffffffffull;
    uint32_t va = 0; bool t = THROWS(va = p.rva_to_va_32(rva));
    sym_assert(t == !fits, "32-bit RVA to VA is rejected exactly when the result does not fit 32 bits");
    if (!t) { sym_assert(va == (uint32_t)(base + rva), "32-bit VA is base plus RVA"); sym_assert(p.va_to_rva(va) == rva, "32-bit VA converts back"); uint32_t o; p.rva_to_va(rva, o); sym_assert(o == va, "both 32-bit forms agree"); sym_reach("va32"); }
    else sym_reach("va32-rejected");
}
static void va64(bool pe64)
{
    pe_base p = mkimage(pe64); uint64_t base = pe64 ? sym_u64("base") : sym_u32("base"); p.set_image_base_64(base); uint32_t rva = sym_u32("rva");
    bool fits = base <= ~0ull - rva; uint64_t va = 0; bool t = THROWS(va = p.rva_to_va_64(rva));
    sym_assert(t == !fits, "64-bit RVA to VA is rejected exactly when the result does not fit");
    if (!t) { sym_assert(va == base + rva, "64-bit VA is base plus RVA"); sym_assert(p.va_to_rva(va) == rva, "64-bit VA converts back"); uint64_t o; p.rva_to_va(rva, o); sym_assert(o == va, "both 64-bit forms agree"); sym_reach("va64"); }
}
static void rva(bool pe64)
{
    pe_base p = mkimage(pe64); uint64_t base = pe64 ? sym_u64("base") : sym_u32("base"); p.set_image_base_64(base);
    uint64_t va = sym_u64("va"); uint32_t r = 0; bool t = THROWS(r = p.va_to_rva(va)); bool ok = va >= base && va - base <= 0xffffffffu;
    sym_assert(t == !ok, "64-bit VA is rejected exactly when below the base or more than 4 GB above it");
    if (!t) { sym_assert(r == (uint32_t)(va - base), "RVA is VA minus base"); sym_assert(p.rva_to_va_64(r) == va, "RVA converts back"); sym_reach("rva"); } else sym_reach("rva-rejected");
    uint32_t v3 = (uint32_t)sym_u32("va32"); t = THROWS(r = p.va_to_rva(v3)); ok = v3 >= base;
    sym_assert(t == !ok, "32-bit VA is rejected exactly when below the base");
    if (!t) { sym_assert(r == (uint32_t)(v3 - base), "RVA is VA minus base (32-bit)"); sym_reach("rva32"); }
    sym_assert(p.va_to_rva(va, false) == (uint32_t)(va - base), "unchecked conversion is the plain difference");
}
extern "C" void c08_va32_pe32() { va32(false); }
extern "C" void c08_va32_pe64() { va32(true); }
extern "C" void c08_va64_pe32() { va64(false); }
extern "C" void c08_va64_pe64() { va64(true); }
extern "C" void c08_rva_pe32() { rva(false); }
extern "C" void c08_rva_pe64() { rva(true); }
// file offsets: n sections with non-overlapping raw and virtual extents that do not wrap; all 32-bit arithmetic so that the solver sees no width changes
static void off(bool pe64, unsigned n, unsigned dir, bool freeHeaders)
{
    pe_base p = mkimage(pe64); const uint32_t sa = pe64 ? 0x1000 : 0x2000, fa = 0x200;
    memcpy(p.get_nt_headers_ptr() + H_SALIGN, &sa, 4);
    uint32_t soh = 0x400; if (freeHeaders) { soh = sym_u32("headers"); sym_assume(soh <= 0x1000); } p.set_size_of_headers(soh);
    uint32_t va[3], vs[3], rp[3], rs[3], ext[3];
    for (unsigned i = 0; i < n; i++) {
        const uint32_t m = n > 1 ? 0xfffff : 0xffffffff; va[i] = sym_u32("va") & m & ~(sa - 1); vs[i] = sym_u32("vs") & m; rp[i] = sym_u32("rp") & m; rs[i] = sym_u32("rs") & m;
        bool zero = sym_choose(2, "vszero"); if (zero) { vs[i] = 0; sym_assume(rs[i] != 0); } else sym_assume(vs[i] != 0);
        uint32_t size = zero ? rs[i] : vs[i]; sym_assume(size <= 0u - sa); ext[i] = (size + sa - 1) & ~(sa - 1);
        sym_assume((va[i] >= soh) & (rp[i] >= soh) & (va[i] <= ~ext[i]) & (rp[i] <= ~rs[i]) & (rs[i] <= ext[i]));
        if (i) sym_assume((va[i] >= va[i - 1]) & (va[i] - va[i - 1] >= ext[i - 1]));
        for (unsigned j = 0; j < i; j++) { if (sym_choose(2, "order")) sym_assume((rp[i] >= rp[j]) & (rp[i] - rp[j] >= rs[j])); else sym_assume((rp[j] >= rp[i]) & (rp[j] - rp[i] >= rs[i])); }
        attach(p, va[i], vs[i], rp[i], rs[i], "");
    }
    if (dir == 0) {
        uint32_t r = sym_u32("rva"), o = 0; if (n > 1) r &= 0x3fffff; bool t = THROWS(o = p.rva_to_file_offset(r));
        bool inh = r < soh, in = inh, backed = inh; uint32_t want = r;
        for (unsigned i = 0; i < n; i++) { bool h = (r >= va[i]) & (r - va[i] < ext[i]) & !inh; want = (uint32_t)sym_ite(h, rp[i] + (r - va[i]), want); in = in | h; backed = backed | (h & (r - va[i] < rs[i])); }
        sym_assert(t == !in, "an RVA is rejected exactly when it is in neither the headers nor a section");
        if (!t && backed) { sym_assert(o == want, "an RVA backed by file data gives the offset of that byte"); uint32_t b = 0; bool t2 = THROWS(b = p.file_offset_to_rva(o)); sym_assert(!t2 && b == r, "that offset converts back to the RVA"); sym_reach("rva-off-rva"); }
    } else {
        uint32_t f = sym_u32("off"), q = 0; if (n > 1) f &= 0x3fffff; bool t = THROWS(q = p.file_offset_to_rva(f)); bool inh = f < soh, in = inh; uint32_t want = f;
        for (unsigned i = 0; i < n; i++) { bool h = (f >= rp[i]) & (f - rp[i] < rs[i]) & !inh; in = in | h; want = (uint32_t)sym_ite(h, va[i] + (f - rp[i]), want); }
        sym_assert(t == !in, "a file offset is rejected exactly when it is in neither the headers nor a section's raw data");
        if (!t) { sym_assert(q == want, "a file offset gives the RVA of that byte"); uint32_t o = 0; bool t2 = THROWS(o = p.rva_to_file_offset(q)); sym_assert(!t2 && o == f, "that RVA converts back to the offset"); sym_reach("off-rva-off");
            if (!inh) { const section& s = p.section_from_file_offset(f); sym_assert((f >= s.get_pointer_to_raw_data()) & (f - s.get_pointer_to_raw_data() < s.get_size_of_raw_data()), "the section found by file offset contains it"); } }
        else sym_reach("off-rejected");
    }
}
extern "C" void c08_rvaoff1() { off(false, 1, 0, true); }
extern "C" void c08_offrva1() { off(true, 1, 1, true); }
extern "C" void c08_rvaoff2() { off(true, 2, 0, false); }
extern "C" void c08_offrva2() { off(false, 2, 1, false); }
extern "C" void c08_rvaoff3() { off(true, 3, 0, false); }
extern "C" void c08_offrva3() { off(false, 3, 1, false); }
extern "C" void c08_secoff() {
    section s; uint32_t va = sym_u32("va"), o = sym_u32("o"); s.set_virtual_address(va); sym_assert(pe_base::rva_from_section_offset(s, o) == va + o, "section offset to RVA"); sym_reach("secoff");
}
