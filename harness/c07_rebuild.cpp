// C07: rebuilding and reopening an image.
#include "img.h"
#include "pe_rebuilder.h"
static std::string raw40(const section& s) { return std::string((const char*)&s.get_raw_header(), 40); }
struct Case { bool pe64; unsigned nd, stub; bool strip, change; uint32_t sa; };
// an image whose header bytes are arbitrary except for the layout fields
static pe_base image(const Case& c, std::string& stub)
{
    pe_base p = mkimage(c.pe64, c.sa); size_t n = p.get_sizeof_nt_header(); char* q = p.get_nt_headers_ptr(); std::string h(q, n); std::string s = sym_str(n, "headers");
    static const unsigned keep[][2] = { { H_SIG, 4 }, { H_NSEC, 2 }, { H_OPTSIZE, 2 }, { H_MAGIC, 2 }, { H_SALIGN, 8 }, { H_IMGSIZE, 8 } };
    for (unsigned i = 0; i < 6; i++) for (unsigned j = 0; j < keep[i][1]; j++) s[keep[i][0] + j] = h[keep[i][0] + j];
    put32(s, c.pe64 ? 132 : 116, c.nd); memcpy(q, s.data(), n);
    stub = sym_str(c.stub, "stub"); p.set_stub_overlay(stub); sym_make((char*)&p.get_dos_header() + 2, 58, "dos"); return p;
}
static void reopen(pe_base& p, const Case& c, const std::string& stub, bool bound, std::string* outfile = 0)
{
    std::string h = hdrs(p); std::vector<std::string> sh, sd; const section_list& l = p.get_image_sections(); for (size_t i = 0; i < l.size(); i++) { sh.push_back(raw40(l[i])); sd.push_back(l[i].get_raw_data()); sd[i].resize(l[i].get_size_of_raw_data(), 0); }
    std::string dos((const char*)&p.get_dos_header(), 64); uint32_t lastEnd = l.size() ? l.back().get_virtual_address() + l.back().get_aligned_virtual_size(c.sa) : 0; unsigned fa = p.get_file_alignment();
    std::ostringstream o; rebuild_pe(p, o, c.strip, c.change, bound); std::string f = o.str(); if (outfile) *outfile = f;
    unsigned lf = c.strip ? 16 : 64 + ((stub.size() + 3) & ~3), fixed = c.pe64 ? 136 : 120, tab = lf + fixed + 8 * c.nd; unsigned hend = tab + 40 * l.size();
    sym_assert(get32(f, 60) == lf && get16(f, 0) == 0x5a4d, "the DOS header points to the PE headers");
    put16(h, H_OPTSIZE, fixed - 24 + 8 * c.nd); put16(h, H_NSEC, l.size()); put32(h, H_IMGSIZE, l.size() ? lastEnd : get32(h, H_HDRSIZE)); if (c.strip) put32(h, H_BASEOFCODE, 16);
    unsigned soh = (hend + (bound ? get32(h, fixed + 8 * 11 + 4) : 0) + fa - 1) & ~(fa - 1); if (c.change) put32(h, H_HDRSIZE, soh); if (!l.size() && c.change) put32(h, H_IMGSIZE, soh);
    if (bound) put32(h, fixed + 8 * 11, hend);
    sym_assert(sym_eqmem(f.data() + lf, h.data(), fixed + 8 * c.nd), "the PE headers are written with only the layout fields recalculated");
    // file layout
    uint32_t pos = hend;
    for (size_t i = 0; i < l.size(); i++) {
        uint32_t rs = get32(sh[i], S_RAWSIZE), rp = get32(f, tab + 40 * i + S_RAWPTR); std::string w = sh[i]; put32(w, S_RAWPTR, rp); sym_assert(sym_eqmem(f.data() + tab + 40 * i, w.data(), 40), "section headers are written with only the file position recalculated");
        if (rs == 0) continue; sym_assert((rp & (fa - 1)) == 0 && rp >= pos && (size_t)rp + rs <= f.size(), "section data is file aligned, in order, inside the file and does not overlap"); if (rp > 0x100000 || (size_t)rp + rs > f.size()) return;
        sym_assert(sym_eqmem(f.data() + rp, sd[i].data(), rs), "section data lies at its recorded file position"); pos = rp + rs;
    }
    std::istringstream in(f); try {
        pe_base q(pe_factory::create_pe(in, false, false)); std::string g = hdrs(q); sym_assert(q.get_pe_type() == (c.pe64 ? pe_type_64 : pe_type_32) && sym_eqmem(g.data(), h.data(), fixed + 8 * c.nd), "the reopened headers are the same");
        sym_assert(q.get_image_sections().size() == sd.size(), "the reopened image has the same sections"); for (size_t i = 0; i < sd.size() && i < q.get_image_sections().size(); i++) { const section& s = q.get_image_sections()[i]; std::string a = raw40(s), b = sh[i]; sym_assert(same_except(a, b, S_RAWPTR, 4), "the reopened section headers are the same"); sym_assert(s.get_raw_data().size() == sd[i].size() && sym_eqmem(s.get_raw_data().data(), sd[i].data(), sd[i].size()), "the reopened section data is the same"); }
        std::string st = c.strip ? std::string() : stub; st.resize((st.size() + 3) & ~3, 0); sym_assert(q.get_stub_overlay().size() == st.size() && sym_eqmem(q.get_stub_overlay().data(), st.data(), st.size()), "the reopened stub is the same"); sym_assert(!q.has_overlay(), "no overlay appears");
        if (!c.strip) sym_assert(sym_eqmem(&q.get_dos_header(), dos.data(), 60), "the reopened DOS header is the same"); sym_reach("reopened");
    } catch (const pe_exception& e) { sym_assert(0, "a rebuilt image opens"); }
}
static void one(bool pe64)
{
    static const unsigned ND[3] = { 16, 2, 0 }, ST[3] = { 0, 5, 8 }; Case c; c.pe64 = pe64; c.nd = ND[sym_choose(3, "ndirs")]; c.stub = ST[sym_choose(3, "stub")]; c.strip = sym_choose(2, "strip"); c.change = sym_choose(2, "change"); c.sa = 0x1000; std::string st; pe_base p = image(c, st);
    unsigned L = sym_choose(3, "len"); static const unsigned LEN[3] = { 0x1f8, 0x200, 0 }, RS[3] = { 0x1f8, 0x200, 0x400 }; unsigned rs = L == 2 ? 0 : RS[sym_choose(3, "rawsize")]; std::string d(LEN[L], 'd'); if (LEN[L]) { symbytes(d, 0, 4, "first"); symbytes(d, LEN[L] - 4, 4, "last"); }
    uint32_t va = 0x1000, vs = sym_u32("vs") & 0xffffff; sym_assume(vs > 0x400); section& s = attach(p, va, vs, sym_u32("staleptr"), rs, d); s.set_characteristics(sym_u32("ch")); s.set_name("ab"); if (!rs) s.set_raw_data("");
    p.update_image_size(); reopen(p, c, st, false);
}
extern "C" void c07_one32() { one(false); }
extern "C" void c07_one64() { one(true); }
static void two(unsigned n)
{
    Case c; c.pe64 = sym_choose(2, "pe64"); c.nd = 16; c.stub = 0; c.strip = sym_choose(2, "strip"); c.change = true; c.sa = 0x1000; std::string st; pe_base p = image(c, st); uint32_t va = 0x1000; static const unsigned RS[3] = { 0, 0x10, 0x210 };
    for (unsigned i = 0; i < n; i++) { unsigned rs = RS[sym_choose(3, "rawsize")], z = rs ? sym_choose(rs > 0x200 ? 3 : 2, "short") : 0, L = z == 2 ? rs - 0x20c : z ? rs - 3 : rs; std::string d(L, 'a' + i); if (L) { symbytes(d, 0, 2, "first"); symbytes(d, L - 2, 2, "last"); } uint32_t vs = sym_u32("vs") & 0xffff; sym_assume(vs > 0x220); attach(p, va, vs, rs ? 0 : 0x300 * sym_choose(3, "staleptr"), rs, d); va += (vs + 0xfff) & ~0xfff; }
    p.update_image_size(); reopen(p, c, st, false);
}
extern "C" void c07_two() { two(2); }
extern "C" void c07_three() { two(3); }
extern "C" void c07_none() { Case c; c.pe64 = sym_choose(2, "pe64"); c.nd = 16 * sym_choose(2, "nd"); c.stub = 4 * sym_choose(2, "stub"); c.strip = sym_choose(2, "strip"); c.change = sym_choose(2, "change"); c.sa = 0x1000; std::string st; pe_base p = image(c, st); reopen(p, c, st, false); }
// an image built by the library's own operations, then rebuilt
extern "C" void c07_ops()
{
    Case c; c.pe64 = sym_choose(2, "pe64"); c.nd = 16; c.stub = 0; c.strip = sym_choose(2, "strip"); c.change = sym_choose(2, "change"); c.sa = 0x1000; std::string st; pe_base p = image(c, st); unsigned n = 1 + sym_choose(2, "n");
    for (unsigned i = 0; i < n; i++) { section s; static const unsigned LEN[3] = { 0, 7, 0x201 }; unsigned L = LEN[sym_choose(3, "len")]; std::string d(L, 'z'); symbytes(d, 0, L < 3 ? L : 3, "data"); s.set_raw_data(d); s.set_virtual_size(sym_u16("vs")); s.set_characteristics(0x60000020); try { p.add_section(s, sym_choose(2, "autoupdate")); } catch (const pe_exception&) { return; } }
    unsigned op = sym_choose(4, "op"); try { if (op == 1) p.realign_all_sections(); else if (op == 2) p.expand_section(p.get_image_sections().back(), p.get_image_sections().back().get_virtual_address() + 2, 7, pe_base::expand_section_raw); else if (op == 3) p.get_image_sections().back().get_virtual_data(0x1000); } catch (const pe_exception&) { return; }
    reopen(p, c, st, false);
}
// bound imports stored in the headers are carried along
extern "C" void c07_bound()
{
    Case c; c.pe64 = false; c.nd = 16; c.stub = 0; c.strip = sym_choose(2, "strip"); c.change = true; c.sa = 0x1000;
    Layout l = mkLayout(false, 1, 16); std::string f(0x610, 0); fillHeaders(f, l); unsigned o = l.sec(0), B = 0x200 + 8 * sym_choose(3, "where"), n = 5 + sym_choose(2, "size"); put32(f, l.lf + H_HDRSIZE, 0x400); put32(f, l.lf + H_IMGSIZE, 0x2000); put32(f, o + S_VSIZE, 0x100); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x10); put32(f, o + S_RAWPTR, 0x400); symbytes(f, 0x400, 16, "data"); symbytes(f, B, n, "bound"); put32(f, l.dirs() + 8 * 11, B); put32(f, l.dirs() + 8 * 11 + 4, n);
    std::istringstream in(f); pe_base p(pe_factory::create_pe(in, false, false)); std::string b = f.substr(B, n), out, st = sym_str(sym_choose(3, "stub") * 5, "stubdata"); if (st.size()) p.set_stub_overlay(st); reopen(p, c, st, true, &out);
    uint32_t r = p.get_directory_rva(11); sym_assert(r + n <= out.size() && sym_eqmem(out.data() + r, b.data(), n), "the bound import data is written where its directory says"); sym_reach("bound");
}
extern "C" void c07_toolong()
{
    Case c; c.pe64 = false; c.nd = 16; c.strip = sym_choose(2, "strip"); c.change = true; c.sa = 0x200; c.stub = 0x300 * sym_choose(2, "stub"); std::string st; pe_base p = image(c, st); uint32_t va = sym_u16("va") & ~0x1ffu; sym_assume(va >= 0x200); attach(p, va, 0x100, 0, 0x10, std::string(16, 'q')); p.set_size_of_headers(0x200); p.update_image_size();
    unsigned need = ((c.strip ? 16 : 64 + c.stub) + 248 + 40 + 0x1ff) & ~0x1ffu; std::ostringstream o; bool t = THROWS(rebuild_pe(p, o, c.strip, true, false)); sym_assert(t == (need > va), "headers that do not fit before the first section are refused"); sym_reach("toolong");
}
// a bound import directory that runs past the stored headers is refused
extern "C" void c07_boundlong()
{
    Layout l = mkLayout(false, 1, 16); std::string f(0x300, 0); fillHeaders(f, l); unsigned o = l.sec(0); put32(f, l.lf + H_HDRSIZE, 0x1000); put32(f, l.lf + H_IMGSIZE, 0x2000); put32(f, o + S_VSIZE, 0x100); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x10); put32(f, o + S_RAWPTR, 0x200); uint32_t r = 0x1e0 + sym_choose(0x30, "where"), n = sym_u32("size"); put32(f, l.dirs() + 8 * 11, r); put32(f, l.dirs() + 8 * 11 + 4, n); symbytes(f, 0x1e0, 32, "tail");
    std::istringstream in(f); pe_base p(pe_factory::create_pe(in, false, false)); uint32_t have = (uint32_t)p.get_full_headers_data().size(); std::ostringstream out; sym_assume((n >= 1) & ((n <= 0x21) | (n > 0xffffff00u))); bool bad = (r >= have) | (n > have - r); bool t; try { sym_concretize(bad); if (!bad) { n = (uint32_t)sym_concretize(n); p.set_directory_size(11, n); } rebuild_pe(p, out, sym_choose(2, "strip"), true, true); t = false; } catch (const pe_exception&) { t = true; }
    sym_assert(t == bad, "bound imports are carried along exactly when they lie in the stored headers"); sym_reach(t ? "bound-refused" : "bound-kept");
}
// sections of more than 64 KB, long stubs, many sections
extern "C" void c07_large()
{
    static const unsigned ST[3] = { 0, 255, 0x10001 }, RS[5] = { 0xffff, 0x10000, 0x12345, 0x20000, 0x200 }; Case c; c.pe64 = sym_choose(2, "pe64"); c.nd = 16; c.strip = sym_choose(2, "strip"); c.change = true; c.sa = 0x1000; unsigned k = sym_choose(4, "case"), r = k < 3 ? RS[sym_choose(5, "rawsize")] : 0x10; c.stub = 0; std::string st; pe_base p = image(c, st); st = std::string(ST[k % 3], 's'); if (st.size()) { symbytes(st, 0, 1, "stubfirst"); symbytes(st, st.size() - 1, 1, "stublast"); } p.set_stub_overlay(st); uint32_t va = 0x20000;
    for (unsigned i = 0; i < (k == 3 ? 96u : 2u); i++) { unsigned n = i == 0 ? r : 0x300; std::string d(n, 'a' + i % 26); if (i < 2 || i == 95) { symbytes(d, 0, 2, "first"); symbytes(d, n - 2, 2, "last"); } attach(p, va, n, 0, n, d); va += (n + 0xfff) & ~0xfff; } p.update_image_size(); reopen(p, c, st, false);
}
