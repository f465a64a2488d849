// C09: section lookup and section data access.
#include "img.h"
// ---- lookup among n sections with arbitrary (20-bit, non-overlapping) geometry
static void lookup(bool pe64, unsigned n, unsigned how)
{
    pe_base p = mkimage(pe64); uint64_t base = pe64 ? 0x140000000ull : 0x400000; p.set_image_base_64(base);
    const uint32_t sa = 0x1000, m = n > 1 ? 0xffffff : 0xffffffff; uint32_t va[3], ext[3];
    for (unsigned i = 0; i < n; i++) {
        va[i] = sym_u32("va") & m; uint32_t vs = sym_u32("vs") & m, rs = sym_u32("rs") & m; bool zero = sym_choose(2, "vszero"); if (zero) { vs = 0; sym_assume(rs != 0); } else sym_assume(vs != 0);
        uint32_t size = zero ? rs : vs; sym_assume(size <= 0u - sa); ext[i] = (size + sa - 1) & ~(sa - 1); sym_assume(va[i] <= ~ext[i]);
        if (i) sym_assume((va[i] >= va[i - 1]) & (va[i] - va[i - 1] >= ext[i - 1]));
        attach(p, va[i], vs, 0x400, rs, "");
    }
    uint32_t r = sym_u32("rva"); if (n > 1) r &= 0x3ffffff; const pe_base& cp = p; const section* f = 0; bool t;
    if (how == 0) t = THROWS(f = &cp.section_from_rva(r));
    else if (how == 1) t = THROWS(f = &p.section_from_rva(r));
    else if (how == 2) { if (!pe64) sym_assume(r <= 0xffffffffu - 0x400000); t = pe64 ? THROWS(f = &cp.section_from_va((uint64_t)(base + r))) : THROWS(f = &cp.section_from_va((uint32_t)(base + r))); }
    else if (how == 3) { if (!pe64) sym_assume(r <= 0xffffffffu - 0x400000); t = pe64 ? THROWS(f = &p.section_from_va((uint64_t)(base + r))) : THROWS(f = &p.section_from_va((uint32_t)(base + r))); }
    else if (how == 4) { p.set_directory_rva(5, r); t = THROWS(f = &cp.section_from_directory(5)); }
    else if (how == 5) { p.set_directory_rva(2, r); t = THROWS(f = &p.section_from_directory(2)); }
    else { std::pair<uint32_t, const section*> q(0, (const section*)0); t = THROWS(q = cp.section_and_offset_from_rva(r)); f = q.second; if (!t) sym_assert(q.first == r - f->get_virtual_address(), "the reported offset is relative to the section start"); }
    bool in = false; for (unsigned i = 0; i < n; i++) in = in | ((r >= va[i]) & (r - va[i] < ext[i]));
    sym_assert(t == !in, "a section is found exactly when one contains the address");
    if (!t) { unsigned k = (unsigned)(f - &cp.get_image_sections()[0]); sym_assert(k < n, "the section found is one of the image's"); if (k < n) sym_assert((r >= va[k]) & (r - va[k] < ext[k]), "the section found contains the address"); sym_reach("found"); } else sym_reach("not-found");
}
extern "C" void c09_lookup1() { lookup(false, 1, sym_choose(2, "how")); }
extern "C" void c09_lookup2() { lookup(true, 2, sym_choose(2, "how")); }
extern "C" void c09_lookup3() { lookup(false, 3, sym_choose(2, "how")); }
extern "C" void c09_lookupva32() { lookup(false, 1, 2 + sym_choose(2, "how")); }
extern "C" void c09_lookupva64() { lookup(true, 1, 2 + sym_choose(2, "how")); }
extern "C" void c09_lookupdir() { lookup(false, 2, 4 + sym_choose(3, "how")); }
// ---- lengths with full 32-bit geometry: one section
static void len(bool pe64, unsigned kind)
{
    pe_base p = mkimage(pe64); p.set_image_base_64(0x10000); const uint32_t sa = 0x1000; unsigned L = sym_choose(3, "datalen") * 7;
    uint32_t va = sym_u32("va") & ~(sa - 1), vs = sym_u32("vs"), ext; sym_assume((vs != 0) & (vs <= 0u - sa)); ext = (vs + sa - 1) & ~(sa - 1); sym_assume(va <= ~ext); sym_assume(va <= 0xffffffffu - 0x20000 - ext || kind != 3);
    section& s = attach(p, va, vs, 0x400, L, std::string(L, 'x')); const pe_base& cp = p; uint32_t r = sym_u32("rva"), l = 0; bool virt = sym_choose(2, "virtual"); section_data_type ty = virt ? section_data_virtual : section_data_raw;
    uint32_t total = virt ? ext : L; bool in = (r >= va) & (r - va < ext);
    if (kind == 0) { bool t = THROWS(l = cp.section_data_length_from_rva(r, ty)); sym_assert(t == !in, "total length is refused exactly when no section contains the address"); if (!t) { sym_assert(l == total, "total length is the section's raw or virtual length"); sym_reach("total"); } }
    else if (kind == 1) { bool t = THROWS(l = cp.section_data_length_from_rva(s, r, ty)); sym_assert(t == !in, "remaining length in a given section is refused exactly when the address is outside it");
        if (!t) { uint32_t w = (uint32_t)sym_ite(r - va < total, total - (r - va), 0); sym_assert(l == w, "remaining length is the distance to the end of the data"); sym_reach("remaining-in-section"); } }
    else if (kind == 2) { uint32_t r2 = sym_u32("rva2"); bool t = THROWS(l = cp.section_data_length_from_rva(r2, r, ty)); bool in2 = (r2 >= va) & (r2 - va < ext);
        sym_assert(t == !(in2 & (r >= va)), "remaining length is refused exactly when the address is in no section or below it");
        if (!t) { uint32_t w = (uint32_t)sym_ite(r - va < total, total - (r - va), 0); sym_assert(l == w, "remaining length is the distance to the end of the data"); sym_reach("remaining"); } }
    else { sym_assume(r <= 0xffffffffu - 0x10000); bool t; unsigned which = sym_choose(3, "which");
        if (which == 0) t = pe64 ? THROWS(l = cp.section_data_length_from_va((uint64_t)r + 0x10000, ty)) : THROWS(l = cp.section_data_length_from_va((uint32_t)(r + 0x10000), ty));
        else if (which == 1) t = pe64 ? THROWS(l = cp.section_data_length_from_va(s, (uint64_t)r + 0x10000, ty)) : THROWS(l = cp.section_data_length_from_va(s, (uint32_t)(r + 0x10000), ty));
        else t = pe64 ? THROWS(l = cp.section_data_length_from_va((uint64_t)r + 0x10000, (uint64_t)r + 0x10000, ty)) : THROWS(l = cp.section_data_length_from_va((uint32_t)(r + 0x10000), (uint32_t)(r + 0x10000), ty));
        sym_assert(t == !in, "length by VA is refused exactly when no section contains the address");
        if (!t) { uint32_t w = which == 0 ? total : (uint32_t)sym_ite(r - va < total, total - (r - va), 0); sym_assert(l == w, "length by VA"); sym_reach("byva"); } }
}
extern "C" void c09_len_total() { len(false, 0); }
extern "C" void c09_len_section() { len(true, 1); }
extern "C" void c09_len_remaining() { len(false, 2); }
extern "C" void c09_len_va32() { len(false, 3); }
extern "C" void c09_len_va64() { len(true, 3); }
// ---- typed and raw access
struct three { uint8_t a, b, c; };
template<class T> static void typed(const std::string& full, uint32_t off, T v, const char* what) { int ok = sym_eqmem(&v, full.data() + off, sizeof(T)); sym_assert(ok, what); }
template<class T> static void access(bool pe64, unsigned form)
{
    const uint32_t sa = 16; pe_base p = mkimage(pe64, sa); p.set_image_base_64(0x10000); unsigned L = sym_choose(4, "datalen") * 5 + 1, vs = L + sym_choose(2, "extra") * 12; uint32_t va = 0x1000;
    std::string d = sym_str(L, "data"), full = d; uint32_t ext = (vs + sa - 1) & ~(sa - 1); 
    attach(p, 0xf00, 0x20, 0x200, 4, "abcd"); attach(p, va, vs, 0x400, L, d); attach(p, 0x2000, 0x20, 0x600, 4, "efgh"); section& s = p.get_image_sections()[1]; const pe_base& cp = p;
    bool virt = sym_choose(2, "virtual"); section_data_type ty = virt ? section_data_virtual : section_data_raw; if (virt) full.resize(ext, 0);
    uint32_t r = sym_u32("rva"); T v; memset(&v, 0, sizeof v); sym_assume(!(((r >= 0xf00) & (r < 0xf20)) | ((r >= 0x2000) & (r < 0x2020))));
    bool in = (r >= va) & (r - va < ext) & (full.size() >= sizeof(T)) & (r - va <= (uint32_t)full.size() - sizeof(T)), t;
    if (form == 0) t = THROWS(v = cp.section_data_from_rva<T>(s, r, ty));
    else if (form == 1) t = THROWS(v = cp.section_data_from_rva<T>(r, ty));
    else if (form == 2) { sym_assume(r <= 0xffff0000u); t = pe64 ? THROWS(v = cp.section_data_from_va<T>((uint64_t)r + 0x10000, ty)) : THROWS(v = cp.section_data_from_va<T>((uint32_t)(r + 0x10000), ty)); }
    else { sym_assume(r <= 0xffff0000u); t = pe64 ? THROWS(v = cp.section_data_from_va<T>(s, (uint64_t)r + 0x10000, ty)) : THROWS(v = cp.section_data_from_va<T>(s, (uint32_t)(r + 0x10000), ty)); }
    sym_assert(t == !in, "typed access succeeds exactly when all requested bytes lie inside the section's data");
    if (!t) { uint32_t off = (uint32_t)sym_concretize(r - va); typed(full, off, v, "typed access returns the bytes at the address"); sym_reach("typed"); } else sym_reach("typed-refused");
}
extern "C" void c09_typed32() { access<uint32_t>(false, sym_choose(2, "form")); }
extern "C" void c09_typed8() { access<uint8_t>(true, sym_choose(4, "form")); }
extern "C" void c09_typed3() { access<three>(false, sym_choose(4, "form")); }
extern "C" void c09_typed64() { access<uint64_t>(true, 2 + sym_choose(2, "form")); }
extern "C" void c09_raw()
{
    bool pe64 = sym_choose(2, "pe64"); const uint32_t sa = 16; pe_base p = mkimage(pe64, sa); p.set_image_base_64(0x10000); unsigned L = sym_choose(3, "datalen") * 5, vs = L + 5; uint32_t va = 0x1000;
    std::string d = sym_str(L, "data"), full = d; uint32_t ext = (vs + sa - 1) & ~(sa - 1); attach(p, va, vs, 0x400, L, d); attach(p, 0x2000, 0x20, 0x600, 4, "efgh"); section& s = p.get_image_sections()[0]; const pe_base& cp = p; const section& cs = s;
    bool virt = sym_choose(2, "virtual"); section_data_type ty = virt ? section_data_virtual : section_data_raw; if (virt) full.resize(ext, 0);
    uint32_t r = sym_u32("rva"); sym_assume(!((r >= 0x2000) & (r < 0x2020))); bool in = (r >= va) & (r - va < ext), t; const char* q = 0; unsigned form = sym_choose(virt ? 2 : 4, "form"); bool byva = sym_choose(2, "byva"); if (byva) sym_assume(r <= 0xffff0000u);
    uint64_t v64 = (uint64_t)r + 0x10000; uint32_t v32 = r + 0x10000;
    if (form == 0) t = !byva ? THROWS(q = cp.section_data_from_rva(cs, r, ty)) : pe64 ? THROWS(q = cp.section_data_from_va(cs, v64, ty)) : THROWS(q = cp.section_data_from_va(cs, v32, ty));
    else if (form == 1) t = !byva ? THROWS(q = cp.section_data_from_rva(r, ty)) : pe64 ? THROWS(q = cp.section_data_from_va(v64, ty)) : THROWS(q = cp.section_data_from_va(v32, ty));
    else if (form == 2) t = !byva ? THROWS(q = p.section_data_from_rva(s, r)) : pe64 ? THROWS(q = p.section_data_from_va(s, v64)) : THROWS(q = p.section_data_from_va(s, v32));
    else t = !byva ? THROWS(q = p.section_data_from_rva(r)) : pe64 ? THROWS(q = p.section_data_from_va(v64)) : THROWS(q = p.section_data_from_va(v32));
    if (!in) { sym_assert(t, "raw access outside every section is refused"); sym_reach("raw-refused"); }
    else if (form >= 2 && L == 0) sym_assert(t, "writable access to a section without data is refused");
    else if (r - va < full.size()) { sym_assert(!t, "raw access to a stored byte succeeds"); if (!t) { uint32_t off = (uint32_t)sym_concretize(r - va); sym_assert(*q == full[off], "raw access designates the byte at the address"); sym_reach("raw"); } }
}
// ---- header area: an image opened from a stream
extern "C" void c09_headers()
{
    Layout l = mkLayout(false, 1, 2); std::string f(0x210, 0); fillHeaders(f, l); put32(f, l.lf + H_HDRSIZE, 0x200 - 8 * sym_choose(2, "hs")); unsigned S = get32(f, l.lf + H_HDRSIZE);
    unsigned o = l.sec(0); put32(f, o + S_VSIZE, 0x10); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x10); put32(f, o + S_RAWPTR, 0x200); symbytes(f, S - 12, 12, "tail"); symbytes(f, 0x200, 16, "data");
    std::istringstream in(f); pe_base p(in, pe_properties_32(), false, false); const pe_base& cp = p; uint32_t r = sym_u32("rva");
    uint32_t v = 0; bool ok = (r <= S - 4) | ((r >= 0x1000) & (r <= 0x100c)); unsigned k = sym_choose(4, "k");
    if (k == 0) { bool t = THROWS(v = cp.section_data_from_rva<uint32_t>(r, section_data_raw, true)); sym_assert(t == !ok, "typed access with headers succeeds exactly when the bytes lie in the headers or a section");
        if (!t) { sym_assume((r >= S - 12)); uint32_t c = (uint32_t)sym_concretize(r); sym_assert(v == get32(f, c < S ? c : c - 0x1000 + 0x200), "typed access with headers returns the bytes at the address"); sym_reach("hdr-typed"); } }
    else if (k == 1) { uint32_t n = 0; bool t = THROWS(n = cp.section_data_length_from_rva(r, r, section_data_raw, true)); bool in2 = (r < S) | ((r >= 0x1000) & (r < 0x2000)); sym_assert(t == !in2, "length with headers is refused exactly outside");
        if (!t) sym_assert(n == (uint32_t)sym_ite(r < S, S - r, sym_ite(r < 0x1010, 0x1010 - r, 0)), "length with headers is the distance to the end"); sym_reach("hdr-len"); }
    else if (k == 2) { uint32_t n = 0; bool t = THROWS(n = cp.section_data_length_from_rva(r, section_data_raw, true)); bool in2 = (r < S) | ((r >= 0x1000) & (r < 0x2000)); sym_assert(t == !in2, "total length with headers is refused exactly outside");
        if (!t) sym_assert(n == (uint32_t)sym_ite(r < S, S, 16), "total length with headers"); }
    else { sym_assume((r >= S - 12) & (r < S + 4)); const char* q = 0; bool t = THROWS(q = cp.section_data_from_rva(r, section_data_raw, true)); sym_assert(t == !(r < S), "raw access with headers is refused exactly outside");
        if (!t) { uint32_t c = (uint32_t)sym_concretize(r); sym_assert(*q == f[c], "raw access with headers designates the byte"); sym_reach("hdr-raw"); } }
}
// ---- header area: every form that takes two addresses, a virtual address, or gives a writable pointer
extern "C" void c09_headerforms()
{
    bool pe64 = sym_choose(2, "pe64"), virt = sym_choose(2, "virtual"); Layout l = mkLayout(pe64, 1, 2); const uint64_t B = pe64 ? 0x140000000ull : 0x400000; const unsigned S = 0x200; std::string f(0x210, 0); fillHeaders(f, l); put32(f, l.lf + H_HDRSIZE, S); unsigned o = l.sec(0); put32(f, o + S_VSIZE, 0x10); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x10); put32(f, o + S_RAWPTR, 0x200); symbytes(f, S - 12, 12, "tail"); symbytes(f, 0x200, 16, "data"); if (pe64) put64(f, l.lf + 48, B); else put32(f, l.lf + 52, (uint32_t)B);
    std::istringstream in(f); pe_base p(pe_factory::create_pe(in, false, false)); const pe_base& cp = p; section_data_type ty = virt ? section_data_virtual : section_data_raw; uint32_t full = virt ? 0x1000 : 0x10, r = sym_u32("rva"), q = sym_u32("inside"); sym_assume((r <= 0xf0000000u) & (q <= 0xf0000000u)); uint64_t r64 = B + r, q64 = B + q; uint32_t r32 = (uint32_t)r64, q32 = (uint32_t)q64; unsigned k = sym_choose(6, "form"); uint32_t n = 0, v = 0; bool t, hr = r < S, sr = (r >= 0x1000) & (r < 0x2000);
    if (k < 2) {
        if (k == 0) t = THROWS(n = cp.section_data_length_from_rva(r, q, ty, true)); else t = pe64 ? THROWS(n = cp.section_data_length_from_va(r64, q64, ty, true)) : THROWS(n = cp.section_data_length_from_va(r32, q32, ty, true));
        bool hh = hr & (q < S), ss = sr & (q >= 0x1000); sym_assert(t == !(hh | ss), "length with headers is refused exactly outside"); if (!t) sym_assert(n == (uint32_t)sym_ite(hh, S - q, sym_ite(q < 0x1000 + full, 0x1000 + full - q, 0)), "length with headers is the distance to the end"); sym_reach("hdr-two");
    } else if (k == 2) { t = pe64 ? THROWS(n = cp.section_data_length_from_va(r64, ty, true)) : THROWS(n = cp.section_data_length_from_va(r32, ty, true)); sym_assert(t == !(hr | sr), "total length with headers is refused exactly outside"); if (!t) sym_assert(n == (uint32_t)sym_ite(hr, S, full), "total length with headers"); sym_reach("hdr-total"); }
    else if (k == 3) {
        sym_assume(((r >= S - 12) & (r < S + 4)) | ((r >= 0xffe) & (r < 0x1012)) | ((r >= 0x1ffa) & (r < 0x2002))); bool ok = ((r <= S - 4) | ((r >= 0x1000) & (r <= 0x1000 + full - 4))); t = pe64 ? THROWS(v = cp.section_data_from_va<uint32_t>(r64, ty, true)) : THROWS(v = cp.section_data_from_va<uint32_t>(r32, ty, true)); sym_assert(t == !ok, "typed access with headers succeeds exactly when the bytes lie in the headers or a section"); if (t) return; sym_assume(((r >= S - 12) & (r < S)) | (r >= 0x1000) & (r < 0x100d)); uint32_t c = (uint32_t)sym_concretize(r); sym_assert(v == get32(f, c < S ? c : c - 0x1000 + 0x200), "typed access with headers returns the bytes at the address"); sym_reach("hdr-typed-va");
    } else {
        const char* c = 0; char* w = 0; bool va = sym_choose(2, "byva"); sym_assume(((r >= S - 12) & (r < S + 4)) | ((r >= 0xffe) & (r < 0x1010)) | ((r >= 0x1fff) & (r < 0x2002)));
        if (k == 4) t = !va ? THROWS(c = cp.section_data_from_rva(r, ty, true)) : pe64 ? THROWS(c = cp.section_data_from_va(r64, ty, true)) : THROWS(c = cp.section_data_from_va(r32, ty, true)); else t = !va ? THROWS(w = p.section_data_from_rva(r, true)) : pe64 ? THROWS(w = p.section_data_from_va(r64, true)) : THROWS(w = p.section_data_from_va(r32, true));
        sym_assert(t == !(hr | sr), "raw access with headers is refused exactly outside"); if (t) return; uint32_t a = (uint32_t)sym_concretize(r); if (a >= 0x1010) return; char want = f[a < S ? a : a - 0x1000 + 0x200]; sym_assert((k == 4 ? *c : *w) == want, "raw access with headers designates the byte"); if (k == 5) { *w = (char)~want; sym_assert(*cp.section_data_from_rva(a, section_data_raw, true) == (char)~want, "a writable pointer designates the stored byte"); } sym_reach("hdr-raw-va");
    }
}
