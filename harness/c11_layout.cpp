// C11: section layout operations.
#include "img.h"
static uint32_t extOf(uint32_t vs, uint32_t rs, uint32_t sa) { uint32_t b = (uint32_t)sym_ite((vs == 0) & (rs != 0), rs, vs); return (b + sa - 1) & ~(sa - 1); }
static uint32_t extFits(uint32_t vs, uint32_t rs, uint32_t sa) { uint32_t b = (uint32_t)sym_ite((vs == 0) & (rs != 0), rs, vs); return b <= 0u - sa; }
// the layout invariant, stated independently of the library's arithmetic
static bool valid(const pe_base& p, uint32_t sa, bool image = true)
{
    const section_list& s = p.get_image_sections(); bool ok = p.get_number_of_sections() == s.size(); uint32_t end = 0;
    for (size_t i = 0; i < s.size(); i++) {
        uint32_t va = s[i].get_virtual_address(), vs = s[i].get_virtual_size(), rs = s[i].get_size_of_raw_data(), e = extOf(vs, rs, sa);
        ok &= ((va & (sa - 1)) == 0) & !((vs == 0) & (rs == 0)) & extFits(vs, rs, sa) & (va <= ~e); if (i == 0) ok &= va >= p.get_size_of_headers(); else ok &= va == end; end = va + e;
    }
    if (image && s.size()) ok &= p.get_size_of_image() == end; return ok;
}
static std::string raw40(const section& s) { return std::string((const char*)&s.get_raw_header(), 40); }
static std::string blob(unsigned L, const char* n) { std::string d(L, 'z'); if (L) { unsigned k = L < 6 ? L : 3; symbytes(d, L - k, k, n); } return d; }
struct Img { pe_base p; uint32_t sa; std::vector<std::string> h, d; };
static const unsigned LEN[3] = { 0, 5, 0x203 };
// n sections of arbitrary valid geometry; sizes of raw data exact or file-aligned
static uint32_t win(uint32_t v, bool w, const char* n) { if (!w) return v; v &= 0x7fffff; return sym_choose(2, n) ? v | 0xff800000u : v; }
static Img make(unsigned n, bool pe64, bool alignedRaw, bool w = false, unsigned nl = 3, bool few = false)
{ static const uint32_t VS[5] = { 1, 0x200, 0x201, 0x1001, 0xff000 };
    Img m = { mkimage(pe64, pe64 ? 0x1000 : 0x200), pe64 ? 0x1000u : 0x200u }; uint32_t va = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned L = LEN[sym_choose(nl, "len")], rs = alignedRaw ? (L + 0x1ff) & ~0x1ff : L; std::string d = blob(L, "data"); if (alignedRaw && sym_choose(2, "full")) d.resize(rs, 0);
        uint32_t vs = few ? VS[sym_choose(5, "vs")] : sym_u32("vs"); if (L == 0 || !sym_choose(2, "vszero")) { sym_assume(vs != 0); } else vs = 0; if (w || i + 1 < n) vs &= 0xfffff;
        if (i == 0) { va = win(sym_u32("va"), w, "vahigh") & ~(m.sa - 1); sym_assume(va >= m.p.get_size_of_headers()); if (n > 1) sym_assume(va < 0x1000000); }
        attach(m.p, va, vs, 0x400, rs, d); va += extOf(vs, rs, m.sa);
    }
    for (unsigned i = 0; i < n; i++) { m.h.push_back(raw40(m.p.get_image_sections()[i])); m.d.push_back(m.p.get_image_sections()[i].get_raw_data()); }
    m.p.update_image_size(); sym_assume(valid(m.p, m.sa)); return m;
}
#define KEPT(m, i) do { const section& q_ = m.p.get_image_sections()[i]; sym_assert(sym_eqmem(m.h[i].data(), raw40(q_).data(), 40), "other sections keep their headers"); sym_assert(q_.get_raw_data() == m.d[i], "other sections keep their data"); } while (0)
static void add(unsigned n, bool pe64)
{
    Img m = make(n, pe64, sym_choose(2, "aligned"), n > 1, n > 1 ? 2 : 3); pe_base& p = m.p; std::string hd = hdrs(p); bool autoup = n ? sym_choose(2, "autoupdate") : true;
    section s; unsigned L = LEN[sym_choose(3, "newlen")]; std::string d = blob(L, "newdata"); uint32_t vs = win(sym_u32("newvs"), n > 1, "vshigh"), va = n ? 0 : sym_u32("newva"), ch = sym_u32("ch"), sa = m.sa; s.set_raw_data(d); s.set_virtual_size(vs); s.set_virtual_address(va); s.set_characteristics(ch); s.set_name(".new"); s.set_size_of_raw_data(sym_u32("stale"));
    uint32_t rs = (L + 0x1ff) & ~0x1ff; bool both0 = (L == 0) & (vs == 0); uint32_t need = (uint32_t)sym_ite(vs == 0, rs, vs); bool fit = need <= 0u - sa; uint32_t e = (need + sa - 1) & ~(sa - 1), re = (rs + sa - 1) & ~(sa - 1); e = (uint32_t)sym_ite(e < re, re, e);
    uint32_t at; bool vaok = true; if (n) at = p.get_image_sections()[n - 1].get_virtual_address() + extOf(p.get_image_sections()[n - 1].get_virtual_size(), p.get_image_sections()[n - 1].get_size_of_raw_data(), sa);
    else { uint32_t soh = (p.get_size_of_headers() + sa - 1) & ~(sa - 1); vaok = (va <= 0u - sa) & ((va == 0) | (((va + sa - 1) & ~(sa - 1)) >= p.get_size_of_headers())); at = (uint32_t)sym_ite(va == 0, soh, (va + sa - 1) & ~(sa - 1)); }
    bool bad = both0 | !fit | !vaok | (at > ~e); section* r = 0; bool t = THROWS(r = &p.add_section(s, autoup));
    sym_assert(t == bad, "adding a section is refused exactly when it has no size or does not fit the address space after the headers");
    if (t) { sym_assert(p.get_image_sections().size() == n && sym_eqmem(hd.data(), hdrs(p).data(), hd.size()), "a refused section changes nothing"); for (unsigned i = 0; i < n; i++) KEPT(m, i); sym_reach("add-refused"); return; }
    sym_assert(p.get_image_sections().size() == n + 1 && r == &p.get_image_sections().back(), "the section is appended"); sym_assert(valid(p, sa), "the layout is valid after adding a section");
    sym_assert(r->get_virtual_address() == at && extOf(r->get_virtual_size(), r->get_size_of_raw_data(), sa) == e && r->get_virtual_size() >= vs && r->get_characteristics() == ch && r->get_name() == ".new" && r->get_raw_data() == d && r->get_size_of_raw_data() == rs, "the new section has the asked contents and the next free address");
    for (unsigned i = 0; i < n; i++) { if (i + 1 == n && autoup) put32(m.h[i], S_RAWSIZE, (m.d[i].size() + 0x1ff) & ~0x1ff); KEPT(m, i); }
    sym_assert(same_except(hd, hdrs(p), H_NSEC, 2, H_IMGSIZE, 4), "only the section count and image size change in the headers"); sym_reach("added");
}
extern "C" void c11_add0_32() { add(0, false); }
extern "C" void c11_add0_64() { add(0, true); }
extern "C" void c11_add1_32() { add(1, false); }
extern "C" void c11_add1_64() { add(1, true); }
extern "C" void c11_add2() { add(2, false); }
extern "C" void c11_addmax()
{
    pe_base p = mkimage(false); unsigned n = 0x5e + sym_choose(3, "n"); for (unsigned i = 0; i < n; i++) attach(p, 0x1000 * (i + 1), 1, 0, 0, ""); p.update_image_size(); section s; s.set_virtual_size(sym_u16("vs") | 1);
    bool t = THROWS(p.add_section(s)); sym_assert(t == (n >= 0x60), "no more than 96 sections can be added"); if (!t) sym_assert(valid(p, 0x1000), "layout valid"); sym_reach("addmax");
}
// ---- virtual size
static void setvs(unsigned n, bool pe64)
{
    Img m = make(n, pe64, true); pe_base& p = m.p; std::string hd = hdrs(p); uint32_t sa = m.sa, vs = sym_u32("newvs"); sym_assume(vs <= 0x80000000u); unsigned k = sym_choose(n + 1, "which"); section fr; if (k == n) { unsigned L = LEN[sym_choose(2, "freelen")]; fr.set_raw_data(std::string(L, 'f')); fr.set_size_of_raw_data((L + 0x1ff) & ~0x1ff); fr.set_virtual_size(0x30); }
    section& s = k == n ? fr : p.get_image_sections()[k]; uint32_t rs = s.get_size_of_raw_data(), va = s.get_virtual_address(); std::string sh = raw40(s), sd = s.get_raw_data(); bool empty = sd.empty(); uint32_t e = extOf(vs == 0 ? rs : vs, 0, sa);
    bool bad = ((vs == 0) & empty) | (k + 1 < n) | ((k + 1 == n) & (va > ~e)); bool t = THROWS(p.set_section_virtual_size(s, vs));
    sym_assert(t == bad, "the virtual size can be set exactly for a free section or the last one, if it does not become empty and still fits");
    std::string w = sh; if (!t) put32(w, S_VSIZE, vs == 0 ? rs : vs); sym_assert(sym_eqmem(w.data(), raw40(s).data(), 40) && s.get_raw_data() == sd, "only the virtual size of the section changes");
    for (unsigned i = 0; i < n; i++) if (i != k) KEPT(m, i); if (t) sym_assert(sym_eqmem(hd.data(), hdrs(p).data(), hd.size()), "a refused size changes nothing"); 
    if (n) { sym_assert(valid(p, sa), "the layout is valid after setting the virtual size"); sym_assert(same_except(hd, hdrs(p), H_IMGSIZE, 4), "only the image size changes in the headers"); } else sym_assert(sym_eqmem(hd.data(), hdrs(p).data(), hd.size()), "a free section does not change the image"); sym_reach("setvs");
}
extern "C" void c11_setvs0() { setvs(0, sym_choose(2, "pe64")); }
extern "C" void c11_setvs1() { setvs(1, sym_choose(2, "pe64")); }
extern "C" void c11_setvs2() { setvs(2, sym_choose(2, "pe64")); }
// ---- growing
static void expand(unsigned n, bool raw)
{
    Img m = make(n, true, true, true, n > 1 ? 2 : 3); pe_base& p = m.p; std::string hd = hdrs(p); uint32_t sa = m.sa; unsigned k = sym_choose(n + 1, "which"); section fr; if (k == n) { unsigned L = LEN[sym_choose(2, "freelen")]; fr.set_raw_data(std::string(L, 'f')); fr.set_virtual_size(0x30); fr.set_virtual_address(0x5000); p.prepare_section(fr); }
    section& s = k == n ? fr : p.get_image_sections()[k]; std::string sh = raw40(s), sd = s.get_raw_data(); uint32_t va = s.get_virtual_address(), ovs = s.get_virtual_size(), rs = s.get_size_of_raw_data(), oe = extOf(ovs, rs, sa), r = 0, sz = 0;
    if (raw) { static const uint32_t OFF[6] = { 0, 2, 0x202, 0x203, 0x204, 0x1001 }, SZ[6] = { 0, 1, 4, 0x1ff, 0xfff, 0xffffff00u }; unsigned c = sym_choose(7, "off"); if (c < 6) r = va + OFF[c]; else { r = sym_u32("rva"); sym_assume(!((r >= va) & (r - va < oe))); } sz = c < 6 ? SZ[sym_choose(6, "size")] : sym_u32("size"); }
    else { r = win(sym_u32("rva"), true, "rvahigh"); sz = win(sym_u32("size"), true, "sizehigh"); }
    bool in = (r >= va) & (r - va < oe); uint32_t off = r - va;
    uint32_t have = raw ? (uint32_t)sd.size() : oe; uint32_t left = (uint32_t)sym_ite(off < have, have - off, 0); bool grows = left < sz; bool sumok = off <= 0xffffffffu - sz;
    uint32_t need = off + sz, ext, nrs = (need + 0x1ff) & ~0x1ff; // expected virtual extent afterwards
    if (raw) { uint32_t a = (nrs + sa - 1) & ~(sa - 1); ext = (uint32_t)sym_ite(a > oe, a, oe); } else ext = (need + sa - 1) & ~(sa - 1);
    bool fit = sumok & (need <= 0u - sa) & ((k == n) | (va <= ~ext)); bool bad = (k + 1 < n) | !in | (grows & !fit); bool res = false; bool t = THROWS(res = p.expand_section(s, r, sz, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual));
    sym_assert(t == bad, "growing is refused exactly for a middle section, an address outside the section or a size that does not fit");
    for (unsigned i = 0; i < n; i++) if (i != k) KEPT(m, i);
    if (t) { sym_assert(sym_eqmem(hd.data(), hdrs(p).data(), hd.size()) && sym_eqmem(sh.data(), raw40(s).data(), 40) && s.get_raw_data() == sd, "a refused growth changes nothing"); sym_reach("expand-refused"); return; }
    sym_assert(res == grows, "the result says whether the section was grown");
    if (!res) { sym_assert(sym_eqmem(hd.data(), hdrs(p).data(), hd.size()) && sym_eqmem(sh.data(), raw40(s).data(), 40) && s.get_raw_data() == sd, "a section that is large enough is unchanged"); sym_reach("expand-enough"); return; }
    std::string g = s.get_raw_data(); uint32_t e2 = extOf(s.get_virtual_size(), s.get_size_of_raw_data(), sa); sym_assert(s.get_virtual_address() == va && e2 == ext, "the grown section keeps its address and has the needed extent");
    if (raw) { sym_assert(g.size() == need, "raw data covers the needed range"); sym_assert(sym_eqmem(g.data(), sd.data(), sd.size()), "existing data is kept"); bool z = true; for (size_t i = sd.size(); i < g.size(); i++) z = z & (g[i] == 0); sym_assert(z, "added data is zero"); sym_assert(s.get_size_of_raw_data() == nrs, "raw size follows the data"); }
    else { sym_assert(g == sd, "virtual growth keeps the raw data"); sym_assert(s.get_size_of_raw_data() == rs, "virtual growth keeps the raw size"); }
    if (n) sym_assert(valid(p, sa), "the layout is valid after growing"); sym_assert(same_except(hd, hdrs(p), H_IMGSIZE, 4), "only the image size changes in the headers"); sym_reach("expanded");
}
extern "C" void c11_expandraw0() { expand(0, true); }
extern "C" void c11_expandraw1() { expand(1, true); }
extern "C" void c11_expandraw2() { expand(2, true); }
extern "C" void c11_expandvirt0() { expand(0, false); }
extern "C" void c11_expandvirt1() { expand(1, false); }
extern "C" void c11_expandvirt2() { expand(2, false); }
// ---- realignment
static void kept_upto_zeros(const std::string& a, const std::string& b, const char* what) { size_t n = a.size() < b.size() ? a.size() : b.size(); bool z = true; for (size_t i = n; i < a.size(); i++) z = z & (a[i] == 0); for (size_t i = n; i < b.size(); i++) z = z & (b[i] == 0); sym_assert(z && sym_eqmem(a.data(), b.data(), n), what); }
static void realign(unsigned n, bool file, bool few = false)
{
    Img m = make(n, sym_choose(2, "pe64"), sym_choose(2, "aligned"), n > 1, n > 1 && file && !few ? 2 : 3, few); pe_base& p = m.p; std::string hd = hdrs(p); uint32_t fa = 0x200; unsigned k = n; bool t = false;
    if (file) { fa = 0x200u << sym_choose(5, "fa"); bool bad = fa > m.sa; t = THROWS(p.realign_file(fa)); sym_assert(t == bad, "an alignment above the section alignment is refused"); }
    else { k = sym_choose(n + 1, "index"); t = THROWS(p.realign_section(k)); sym_assert(t == (k >= n), "realigning a section that does not exist is refused"); }
    for (unsigned i = 0; i < n; i++) {
        if (t || (!file && i != k)) { KEPT(m, i); continue; }
        section& s = p.get_image_sections()[i]; std::string g = s.get_raw_data(); kept_upto_zeros(m.d[i], g, "realignment keeps section data up to trailing zeros"); std::string h = raw40(s);
        sym_assert(s.get_size_of_raw_data() == g.size(), "raw size follows the data"); if (i + 1 < n) sym_assert((g.size() & (fa - 1)) == 0, "sections before the last are file aligned"); else if (g.size()) sym_assert(g[g.size() - 1] != 0, "trailing zeros of the last section are stripped");
        sym_assert(same_except(m.h[i], h, S_RAWSIZE, 4, S_VSIZE, 4) && (get32(h, S_VSIZE) == get32(m.h[i], S_VSIZE) || get32(m.h[i], S_VSIZE) == 0), "realignment changes only raw sizes");
    }
    sym_assert(valid(p, m.sa), "the layout is valid after realignment"); sym_assert(same_except(hd, hdrs(p), H_FALIGN, 4), "only the file alignment changes in the headers"); sym_assert(p.get_file_alignment() == (t ? 0x200 : fa), "file alignment"); sym_reach(t ? "realign-refused" : "realigned");
}
extern "C" void c11_realign1() { realign(1, false); }
extern "C" void c11_realign2() { realign(2, false); }
extern "C" void c11_realignfile1() { realign(1, true); }
extern "C" void c11_realign2f() { realign(2, false, true); }
extern "C" void c11_realignfile2f() { realign(2, true, true); }
extern "C" void c11_realignfile2() { realign(2, true); }
// after the raw data of a section was edited, within its addresses
static void realignedit(unsigned n)
{
    Img m = make(n, true, sym_choose(2, "aligned"), n > 1, n > 1 ? 2 : 3); pe_base& p = m.p; std::string hd = hdrs(p); unsigned k = sym_choose(n, "which"); section& s = p.get_image_sections()[k]; std::string sh = raw40(s); uint32_t ovs = s.get_virtual_size(), oe = extOf(ovs, s.get_size_of_raw_data(), m.sa); static const unsigned NL[6] = { 0, 7, 0x200, 0x205, 0x401, 0x1003 }; unsigned c = sym_choose(6, "editlen"); uint32_t up = (NL[c] + 0x1ff) & ~0x1ffu; sym_assume(up <= oe); bool zero = c && sym_choose(2, "zeros"); std::string d = zero ? std::string(NL[c], 0) : blob(NL[c], "edit"); if (zero) d[0] = 'z'; s.get_raw_data() = d; bool file = sym_choose(2, "file"); if (file) p.realign_file(0x200); else p.realign_section(k);
    for (unsigned i = 0; i < n; i++) if (i != k && !file) KEPT(m, i); std::string g = s.get_raw_data(), h = raw40(s); kept_upto_zeros(d, g, "realignment keeps edited data up to trailing zeros"); sym_assert(s.get_size_of_raw_data() == g.size(), "raw size follows the edited data"); if (k + 1 < n) sym_assert((g.size() & 0x1ff) == 0, "sections before the last are file aligned"); sym_assert(same_except(sh, h, S_RAWSIZE, 4, S_VSIZE, 4) && (get32(h, S_VSIZE) == ovs || ovs == 0), "realignment changes only raw sizes"); sym_assert(same_except(hd, hdrs(p), H_FALIGN, 4), "the headers are kept"); sym_reach("realigned");
}
extern "C" void c11_realignedit1() { realignedit(1); }
extern "C" void c11_realignedit2() { realignedit(2); }
// ---- recalculation after the raw data was edited
static void recalc(unsigned n)
{
    Img m = make(n, true, true, n > 1, n > 1 ? 2 : 3); pe_base& p = m.p; std::string hd = hdrs(p); unsigned k = sym_choose(n, "which"); section& s = p.get_image_sections()[k]; uint32_t va = s.get_virtual_address(), oe = extOf(s.get_virtual_size(), s.get_size_of_raw_data(), m.sa), ovs = s.get_virtual_size();
    static const unsigned NL[4] = { 0, 7, 0x205, 0x1003 }; std::string d = blob(NL[sym_choose(4, "editlen")], "edit"); s.get_raw_data() = d; uint32_t rs = ((uint32_t)d.size() + 0x1ff) & ~0x1ff; bool strip = sym_choose(2, "strip");
    uint32_t re = (rs + m.sa - 1) & ~(m.sa - 1), ve = (ovs + m.sa - 1) & ~(m.sa - 1), ext = (uint32_t)sym_ite(re > ve, re, ve); bool last = k + 1 == n; bool bad = ((d.size() == 0) & (ovs == 0)) | (!last & (ext > oe)) | (va > ~ext); if (!last) ext = oe;
    bool t = THROWS(p.recalculate_section_sizes(s, strip)); sym_assert(t == bad, "recalculation is refused exactly when the section has no size or would overlap its successor");
    for (unsigned i = 0; i < n; i++) if (i != k) KEPT(m, i); if (t) { sym_reach("recalc-refused"); return; }
    std::string g = s.get_raw_data(); kept_upto_zeros(d, g, "recalculation keeps section data up to trailing zeros"); sym_assert(s.get_size_of_raw_data() >= g.size() && s.get_size_of_raw_data() <= rs && extOf(s.get_virtual_size(), 0, m.sa) == ext && s.get_virtual_address() == va, "sizes follow the data");
    sym_assert(valid(p, m.sa), "the layout is valid after recalculation"); sym_assert(same_except(hd, hdrs(p), H_IMGSIZE, 4), "only the image size changes in the headers"); sym_reach("recalculated");
}
extern "C" void c11_recalc1() { recalc(1); }
extern "C" void c11_recalc2() { recalc(2); }
// ---- short sequences
extern "C" void c11_seq()
{
    bool pe64 = sym_choose(2, "pe64"); uint32_t sa = pe64 ? 0x1000 : 0x200; pe_base p = mkimage(pe64, sa); std::vector<std::string> d;
    for (unsigned i = 0; i < 3; i++) {
        unsigned op = i == 0 ? 0 : sym_choose(5, "op"); bool t = false;
        if (op == 0) { section s; std::string x = blob(LEN[sym_choose(2, "len")], "data"); s.set_raw_data(x); s.set_virtual_size(sym_u16("vs")); t = THROWS(p.add_section(s)); if (!t) d.push_back(x); }
        else { if (p.get_image_sections().empty()) return; section& s = p.get_image_sections().back();
            if (op == 1) { uint32_t v = sym_u16("vs"); t = THROWS(p.set_section_virtual_size(s, v)); }
            else if (op == 2) { t = THROWS(p.expand_section(s, s.get_virtual_address() + 2, 9, pe_base::expand_section_raw)); if (!t && d.back().size() < 11) d.back().resize(11, 0); }
            else if (op == 3) { uint32_t z = sym_u16("z"); t = THROWS(p.expand_section(s, s.get_virtual_address() + 2, z, pe_base::expand_section_virtual)); }
            else p.realign_file(0x200); }
        if (p.get_image_sections().size()) { const section_list& l = p.get_image_sections(); sym_assert(valid(p, sa), "the layout stays valid along a sequence"); for (size_t j = 0; j < l.size(); j++) kept_upto_zeros(d[j], l[j].get_raw_data(), "section data is kept along a sequence"); }
    }
    sym_reach("seq");
}
