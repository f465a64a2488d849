// C28: copies of an image are equal to it and independent of it.
#include "img.h"
struct Snap { std::string head, dos, stub, full, rest; bool overlay; unsigned n; int type; };
static Snap snap(const pe_base& p)
{
    Snap s; s.head = hdrs(p); s.dos.assign((const char*)&p.get_dos_header(), 64); s.stub = p.get_stub_overlay(); s.full = p.get_full_headers_data(); s.overlay = p.has_overlay(); s.n = p.get_image_sections().size(); s.type = p.get_pe_type();
    for (unsigned i = 0; i < s.n; i++) { const section& c = p.get_image_sections()[i]; s.rest.append((const char*)&c.get_raw_header(), 40); s.rest += c.get_raw_data(); s.rest += c.get_virtual_data(p.get_section_alignment()); c.get_raw_data(); }
    for (pe_base::debug_data_list::const_iterator it = p.get_raw_debug_data_list().begin(); it != p.get_raw_debug_data_list().end(); ++it) { s.rest.append((const char*)&it->first, 4); s.rest += it->second; }
    return s;
}
static int eq(const std::string& a, const std::string& b) { return a.size() == b.size() && sym_eqmem(a.data(), b.data(), a.size()); }
static int same(const Snap& a, const Snap& b) { if (a.type != b.type || a.n != b.n || a.overlay != b.overlay) return 0; return eq(a.head, b.head) & eq(a.dos, b.dos) & eq(a.stub, b.stub) & eq(a.full, b.full) & eq(a.rest, b.rest); }
// an opened image with arbitrary header fields, one or two sections, a stub, an overlay and stored debug data
static std::string filedata(bool pe64, unsigned n)
{
    Layout l = mkLayout(pe64, n, 16, 72); std::string f(0x250, 0); fillHeaders(f, l); std::string k = f; symbytes(f, 0, 60, "dos"); symbytes(f, 64, 8, "stub"); put16(f, 0, 0x5a4d); symbytes(f, l.lf + H_EP, 16, "fields"); symbytes(f, l.lf + H_CHECKSUM, 8, "fields2"); symbytes(f, l.lf + H_TIME, 4, "time"); symbytes(f, l.dirs(), 48, "dirs"); symbytes(f, l.dirs() + 56, 72, "dirs2");
    if (pe64) put32(f, l.lf + H_SALIGN, 16); put32(f, l.lf + H_SALIGN, 16); put32(f, l.lf + H_FALIGN, 16); put32(f, l.lf + H_IMGSIZE, 0x1000 + 16 * (n + 3)); put32(f, l.lf + H_HDRSIZE, l.end()); unsigned va = 0x1000; put16(f, l.lf + H_CHAR, sym_u16("ch"));
    for (unsigned i = 0; i < n; i++) { unsigned o = l.sec(i), vs = i ? 7 : 60; symbytes(f, o, 8, "name"); put32(f, o + S_VSIZE, vs); put32(f, o + S_VA, va); put32(f, o + S_RAWSIZE, i ? 5 : 40); put32(f, o + S_RAWPTR, i ? 0x240 : 0x210); va += (vs + 15) & ~15; }
    if (n) { symbytes(f, 0x210, 28, "debugdir"); put32(f, l.dirs() + 48, 0x1000); put32(f, l.dirs() + 52, 28); put32(f, 0x210 + 12, 2); put32(f, 0x210 + 16, 6); put32(f, 0x210 + 24, 0x230); symbytes(f, 0x230, 6, "debug"); }
    symbytes(f, 0x240, 5, "data"); return f;
}
static pe_base opened(bool pe64, unsigned n) { std::istringstream in(filedata(pe64, n)); return pe_base(pe_factory::create_pe(in, false, true)); }
// an image created in memory: no stored header bytes, no debug data
static pe_base created(bool pe64, unsigned n) { pe_base p = mkimage(pe64, 16); for (unsigned i = 0; i < n; i++) attach(p, 0x1000 + 16 * i, i ? 7 : 16, 0x200, 5, sym_str(5, "created")); p.set_ep(sym_u32("createdep")); if (sym_choose(2, "createdstub")) p.set_stub_overlay(sym_str(3, "stub")); return p; }
static pe_base source(bool pe64, unsigned n) { return sym_choose(2, "origin") ? opened(pe64, n) : created(pe64, n); }
static void mutate(pe_base& p)
{
    section_list& s = p.get_image_sections();
    switch (sym_choose(17, "mutation")) {
        case 0: p.set_ep(sym_u32("v")); p.set_image_base_64(sym_u64("w")); break;
        case 1: { unsigned d = sym_choose(16, "dir"); p.set_directory_rva(d, sym_u32("v")); break; }
        case 2: p.remove_directory(sym_choose(16, "dir")); break;
        case 3: p.set_stub_overlay(sym_str(5, "newstub")); break;
        case 4: p.fill_stub_overlay(sym_u8("fill")); break;
        case 5: p.strip_stub_overlay(); break;
        case 6: sym_make(&p.get_dos_header(), 64, "newdos"); break;
        case 7: if (s.size()) { std::string& d = s[0].get_raw_data(); if (d.size()) d[0] = sym_u8("byte"); } break;
        case 8: if (s.size()) { std::string& d = s[0].get_virtual_data(16); if (d.size()) d[d.size() - 1] = sym_u8("byte"); } break;
        case 9: if (s.size()) s[0].set_name("xyz"), s[0].set_characteristics(sym_u32("v")); break;
        case 10: s.clear(); p.update_number_of_sections(); break;
        case 11: { section n; n.set_raw_data("new"); THROWS(p.add_section(n)); break; }
        case 12: p.realign_all_sections(); break;
        case 13: p.set_number_of_rvas_and_sizes(sym_choose(17, "count")); break;
        case 14: if (s.size()) THROWS(p.set_section_virtual_size(s.back(), 100)); break;
        case 15: p.strip_data_directories(0, sym_choose(2, "iat")); break;
        case 16: p = mkimage(sym_choose(2, "other64")); break;
    }
}
static void copies(bool pe64, bool assign)
{
    unsigned n = sym_choose(3, "sections"); pe_base a = source(pe64, n); if (n && sym_choose(2, "mapped")) static_cast<const pe_base&>(a).get_image_sections()[0].get_virtual_data(16); Snap sa;
    unsigned kind = assign ? 1 + sym_choose(3, "target") : 0; pe_base t = kind == 1 ? mkimage(false) : kind == 2 ? mkimage(true) : kind == 3 ? opened(!pe64, 2 - n) : a; if (assign) { pe_base& r = t = a; sym_assert(&r == &t, "assignment returns its target"); }
    sa = snap(a); sym_assert(same(sa, snap(t)), "a copy equals its source"); sym_reach("copied");
    if (sym_choose(2, "which")) { mutate(t); sym_assert(same(sa, snap(a)), "changes to the copy do not show in the source"); } else { mutate(a); sym_assert(same(sa, snap(t)), "changes to the source do not show in the copy"); }
    sym_reach("mutated");
}
extern "C" void c28_copy32() { copies(false, false); }
extern "C" void c28_copy64() { copies(true, false); }
extern "C" void c28_assign32() { copies(false, true); }
extern "C" void c28_assign64() { copies(true, true); }
extern "C" void c28_self() { bool w = sym_choose(2, "pe64"); pe_base a = source(w, sym_choose(3, "sections")); Snap s = snap(a); pe_base& b = a; a = b; sym_assert(same(s, snap(a)), "self-assignment changes nothing"); pe_base c(a); sym_assert(same(s, snap(c)), "a copy of it equals it"); sym_reach("self"); }
// the source may be destroyed
extern "C" void c28_outlive()
{
    bool pe64 = sym_choose(2, "pe64"); pe_base* a = new pe_base(source(pe64, sym_choose(3, "sections"))); Snap s = snap(*a); pe_base b(*a), c = mkimage(!pe64); c = *a; delete a; sym_assert(same(s, snap(b)) && same(s, snap(c)), "copies outlive their source"); mutate(b); sym_assert(same(s, snap(c)), "two copies are independent"); sym_reach("outlive");
}
