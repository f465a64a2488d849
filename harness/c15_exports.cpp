// C15: export tables round-trip.
#include "dir.h"
#include "pe_exports.h"
static const uint16_t BASE[4] = { 1, 0, 0x7ffe, 0xfffa };
struct Made { exported_functions_list l; bool dup; };
static bool less_(const std::string& a, const std::string& b) { return std::string(a) < b; }
// up to n functions, ordinals in a window of 6 in any order, names of 1 or 2 arbitrary characters
static Made make(unsigned n, unsigned kinds, bool distinctNames, unsigned win, unsigned nb)
{
    Made m; m.dup = false; uint16_t base = BASE[sym_choose(nb, "base")];
    for (unsigned i = 0; i < n; i++) {
        exported_function f; uint16_t d = sym_choose(win, "ordinal"); f.set_ordinal(base + d); uint32_t rva = sym_u32("rva"); if (i == 1) sym_assume((rva != 0) & (rva < 0x1000)); else sym_assume(rva >= 0x10000000); f.set_rva(rva); unsigned k = sym_choose(kinds, "kind");
        if (k & 1) { std::string nm = sym_name(1 + (i & 1), "name"); if (distinctNames) nm[0] = 'a' + (3 - i); f.set_name(nm); } if (k & 2) f.set_forwarded_name(sym_name(1 + 2 * (i & 1), "forward"));
        for (unsigned j = 0; j < i; j++) { const exported_function& g = m.l[j]; if (g.get_ordinal() == f.get_ordinal()) m.dup = true; if (g.has_name() && f.has_name() && g.get_name().size() == f.get_name().size() && sym_concretize(sym_eqmem(g.get_name().data(), f.get_name().data(), f.get_name().size()))) m.dup = true; }
        f.set_name_ordinal(sym_u16("ignored")); m.l.push_back(f);
    }
    return m;
}
static int cmp(const pe_base& p, uint32_t a, uint32_t b) { for (unsigned i = 0;; i++) { std::string x, y; if (!bytes_at(p, a + i, 1, x) || !bytes_at(p, b + i, 1, y)) { sym_assert(0, "names end inside the section"); sym_done(); } unsigned char u = x[0], v = y[0]; if (u < v) return -1; if (u > v) return 1; if (!u) return 0; } }
static void trip(unsigned n, unsigned kinds, bool middle, bool distinct)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }; static const unsigned OFF[3] = { 0, 5, 0x103 }; unsigned opt = sym_choose(4, "options"); bool pe64 = opt & 1; pe_base p = dirimage(pe64, middle ? 3 : 2, LEN); section& s = p.get_image_sections()[1]; Made m = make(n, kinds, distinct, n > 2 ? 4 : 5, n > 2 ? 2 : 4); unsigned off = OFF[opt % 3]; if (middle) off = 0x200 - 40 - 4 - 8 - sym_choose(2 + 14 * n, "fit") * 3;
    export_info in; in.set_name(sym_name(3, "dll")); in.set_timestamp(sym_u32("time")); in.set_characteristics(sym_u32("ch")); in.set_major_version(sym_u16("major")); in.set_minor_version(sym_u16("minor")); uint32_t ib = sym_u32("infobase"); in.set_ordinal_base(ib); bool save = opt != 1, strip = opt >= 2; Others o = others(p, 1); std::string before = s.get_raw_data(); if (!save) { p.set_directory_rva(0, 0x77); p.set_directory_size(0, 0x78); }
    image_directory d; bool th = THROWS(d = rebuild_exports(p, in, m.l, s, off, save, strip)); unsigned pos = (off + 3) & ~3u, lo = 0xffff, hi = 0, names = 0, need = 40 + 4; for (unsigned i = 0; i < n; i++) { unsigned q = m.l[i].get_ordinal(); lo = q < lo ? q : lo; hi = q > hi ? q : hi; names += m.l[i].has_name(); if (m.l[i].has_name()) need += 6 + m.l[i].get_name().size() + 1; if (m.l[i].is_forwarded()) need += m.l[i].get_forwarded_name().size() + 1; } unsigned nf = n ? hi - lo + 1 : 0; need += 4 * nf;
    bool small = middle && pos + need > 0x200; sym_assert(th == (m.dup || small), "an export list is refused exactly for a duplicate name or ordinal or when it does not fit"); if (th) { sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("export-refused"); return; }
    sym_assert(others_kept(p, o), "other sections are untouched"); sym_assert(layout_ok(p), "layout stays valid"); sym_assert(s.get_raw_data().size() >= before.size() || strip, "section data is kept"); size_t k = off < before.size() ? off : before.size(); sym_assert(s.get_raw_data().size() >= k && sym_eqmem(s.get_raw_data().data(), before.data(), k), "bytes before the offset are untouched");
    uint32_t va = s.get_virtual_address(), dr = d.get_rva(); sym_assert(dr == va + pos && d.get_size() >= need, "the directory lies at the aligned offset"); if (save) sym_assert(p.get_directory_rva(0) == dr && p.get_directory_size(0) == d.get_size(), "directory entry set"); else { sym_assert(p.get_directory_rva(0) == 0x77 && p.get_directory_size(0) == 0x78, "directory entry kept"); p.set_directory_rva(0, dr); p.set_directory_size(0, d.get_size()); }
    // independent walk
    sym_assert(u32_at(p, dr) == in.get_characteristics() && u32_at(p, dr + 4) == in.get_timestamp() && u16_at(p, dr + 8) == in.get_major_version() && u16_at(p, dr + 10) == in.get_minor_version() && str_at(p, u32_at(p, dr + 12), in.get_name()), "export header fields"); sym_assert(u32_at(p, dr + 16) == (n ? lo : ib) && u32_at(p, dr + 20) == nf && u32_at(p, dr + 24) == names, "export counts and base");
    uint32_t af = u32_at(p, dr + 28), an = u32_at(p, dr + 32), ao = u32_at(p, dr + 36); std::vector<unsigned> at(nf, 99); for (unsigned i = 0; i < n; i++) at[m.l[i].get_ordinal() - lo] = i;
    for (unsigned i = 0; i < nf; i++) { uint32_t v = u32_at(p, af + 4 * i); if (at[i] == 99) { sym_assert(v == 0, "unused ordinals have no address"); continue; } const exported_function& f = m.l[at[i]]; if (f.is_forwarded()) sym_assert(v >= dr && v < dr + d.get_size() && str_at(p, v, f.get_forwarded_name()), "a forwarder points to its text in the directory"); else sym_assert(v == f.get_rva(), "function address"); }
    unsigned seen = 0; for (unsigned i = 0; i < names; i++) { unsigned q = u16_at(p, ao + 2 * i); sym_assert(q < nf && at[q < nf ? q : 0] != 99, "name ordinal is in range"); if (q >= nf || at[q] == 99) return; const exported_function& f = m.l[at[q]]; sym_assert(!((seen >> at[q]) & 1), "each function is named once"); seen |= 1u << at[q]; uint32_t nr = u32_at(p, an + 4 * i); sym_assert(f.has_name() && str_at(p, nr, f.get_name()), "name table entry belongs to its ordinal"); if (i) sym_assert(cmp(p, u32_at(p, an + 4 * i - 4), nr) < 0, "names are in ascending order"); }
    export_info e; exported_functions_list r = get_exported_functions(p, e), r2 = get_exported_functions(p); sym_assert(eqs(e.get_name(), in.get_name()) && e.get_timestamp() == in.get_timestamp() && e.get_characteristics() == in.get_characteristics() && e.get_major_version() == in.get_major_version() && e.get_minor_version() == in.get_minor_version() && e.get_ordinal_base() == (n ? lo : ib) && e.get_number_of_functions() == nf && e.get_number_of_names() == names, "export information is read back");
    sym_assert(r.size() == n && r2.size() == n, "the same functions are read back"); if (r.size() != n) return; unsigned idx = 0;
    for (unsigned i = 0; i < nf; i++) if (at[i] != 99) { const exported_function &f = m.l[at[i]], &g = r[idx++]; sym_assert(g.get_ordinal() == f.get_ordinal() && g.has_name() == f.has_name() && g.is_forwarded() == f.is_forwarded(), "ordinal and kind are read back"); if (f.has_name()) sym_assert(eqs(f.get_name(), g.get_name()) && g.get_name_ordinal() == i, "name is read back"); if (f.is_forwarded()) sym_assert(eqs(f.get_forwarded_name(), g.get_forwarded_name()), "forwarder is read back"); else sym_assert(g.get_rva() == f.get_rva(), "address is read back"); }
    std::pair<uint16_t, uint16_t> lim = get_export_ordinal_limits(r); sym_assert(lim.first == (n ? lo : 0) && lim.second == (n ? hi : 0), "ordinal limits of the list read back"); sym_reach("exports");
}
extern "C" void c15_small() { trip(sym_choose(3, "n"), 4, false, false); }
extern "C" void c15_fit() { trip(sym_choose(3, "n"), 4, true, true); }
extern "C" void c15_names3() { trip(3, 2, false, false); }
extern "C" void c15_kinds3() { trip(3, 4, false, true); }
// queries over lists of arbitrary ordinals and names
extern "C" void c15_queries()
{
    exported_functions_list l; unsigned n = sym_choose(4, "n"); uint16_t lo = 0xffff, hi = 0, q = sym_u16("query"); std::string nm = sym_name(sym_choose(3, "len"), "qname"); bool ho = false, hn = false;
    for (unsigned i = 0; i < n; i++) { exported_function f; uint16_t d = sym_u16("ordinal"); f.set_ordinal(d); std::string s = sym_name(sym_choose(3, "namelen"), "name"); f.set_name(s); l.push_back(f); lo = (uint16_t)sym_ite(d < lo, d, lo); hi = (uint16_t)sym_ite(d > hi, d, hi); ho = ho | (d == q); hn = hn | (s.size() && s.size() == nm.size() && sym_eqmem(s.data(), nm.data(), s.size())); }
    std::pair<uint16_t, uint16_t> p = get_export_ordinal_limits(l); sym_assert(p.first == (n ? lo : 0) && p.second == (n ? hi : 0), "ordinal limits agree with the list"); sym_assert(exported_ordinal_exists(q, l) == ho, "ordinal existence agrees with the list"); sym_assert(exported_name_exists(nm, l) == hn, "name existence agrees with the list"); sym_reach("queries");
}
// addresses around the export directory: only those inside it are forwarders
extern "C" void c15_near()
{
    static const unsigned LEN[2] = { 0x20, 0x200 }; bool pe64 = sym_choose(2, "pe64"); pe_base p = dirimage(pe64, 2, LEN); section& s = p.get_image_sections()[1]; memset(&s.get_raw_data()[0], 'X', s.get_raw_data().size() - 1); s.get_raw_data()[s.get_raw_data().size() - 1] = 0;
    export_info in; in.set_name("dll"); exported_functions_list l; exported_function f; unsigned o = sym_choose(2, "ordinal"); f.set_ordinal(o); f.set_rva(1); if (o) f.set_name("fn"); l.push_back(f); image_directory d = rebuild_exports(p, in, l, s, 8); unsigned k = sym_choose(6, "where");
    uint32_t rva = k < 3 ? d.get_rva() - 1 - k : d.get_rva() + d.get_size() + (k - 3); l[0].set_rva(rva); image_directory e = rebuild_exports(p, in, l, s, 8); sym_assert(e.get_rva() == d.get_rva() && e.get_size() == d.get_size(), "the same place is used again"); exported_functions_list r = get_exported_functions(p);
    sym_assert(r.size() == 1, "the function is read back"); if (r.size() != 1) return; sym_assert(r[0].get_rva() == rva && r[0].get_ordinal() == o && !r[0].is_forwarded() && r[0].get_forwarded_name().empty() && r[0].has_name() == (o == 1), "a function outside the export directory is no forwarder"); sym_reach("near");
}
// the widest range of ordinals
extern "C" void c15_wide()
{
    static const unsigned LEN[2] = { 0x20, 0x20 }; unsigned c = sym_choose(4, "case"); pe_base p = dirimage(c & 1, 2, LEN); section& s = p.get_image_sections()[1]; export_info in; in.set_name("dll"); exported_functions_list l; exported_function f; unsigned lo = c == 3, hi = 0xffff - (c == 2);
    uint32_t a = sym_u32("first"), b = sym_u32("last"); sym_assume((a < 0x1000) & (a != 0) & (b < 0x1000) & (b != 0)); f.set_ordinal(hi); f.set_rva(b); f.set_name("hi"); l.push_back(f); f.set_ordinal(lo); f.set_rva(a); f.set_name("lo"); l.push_back(f); image_directory d; bool th = THROWS(d = rebuild_exports(p, in, l, s, 0)); sym_assert(!th, "a list over all ordinals is written"); if (th) return;
    unsigned nf = hi - lo + 1; uint32_t dr = d.get_rva(), af = u32_at(p, dr + 28), an = u32_at(p, dr + 32), ao = u32_at(p, dr + 36); sym_assert(u32_at(p, dr + 16) == lo && u32_at(p, dr + 20) == nf && u32_at(p, dr + 24) == 2, "export counts and base"); sym_assert(d.get_size() >= 40 + 4 + 6 + 4 * nf + 12, "the directory covers the tables"); sym_assert(u32_at(p, af) == a && u32_at(p, af + 4 * (nf - 1)) == b && u32_at(p, af + 4) == 0 && u32_at(p, af + 4 * (nf - 2)) == 0, "addresses are at their ordinals");
    sym_assert(str_at(p, u32_at(p, an), std::string("hi")) && str_at(p, u32_at(p, an + 4), std::string("lo")) && u16_at(p, ao) == nf - 1 && u16_at(p, ao + 2) == 0, "names belong to their ordinals");
    exported_functions_list r = get_exported_functions(p); sym_assert(r.size() == 2 && r[0].get_ordinal() == lo && r[1].get_ordinal() == hi && r[0].get_rva() == a && r[1].get_rva() == b && eqs(r[0].get_name(), "lo") && eqs(r[1].get_name(), "hi"), "the whole range is read back"); sym_reach("wide");
}
// long names and forwarders, many functions
extern "C" void c15_large()
{
    static const unsigned LEN[2] = { 0x20, 0x20 }, NL[6] = { 126, 254, 255, 256, 1023, 0xffff }, NF[3] = { 255, 256, 300 }; bool pe64 = sym_choose(2, "pe64"); pe_base p = dirimage(pe64, 2, LEN); section& s = p.get_image_sections()[1]; exported_functions_list l; unsigned k = sym_choose(9, "case"); export_info in; std::string dll = "dll"; uint16_t base = sym_choose(2, "base") ? 1 : 0x7fff;
    if (k < 6) { std::string x(NL[k], 'x'); dll = sym_name(1, "dll") + x; exported_function f; f.set_ordinal(base + 1); f.set_rva(sym_u32("rva") | 0x10000000); f.set_name(x + sym_name(1, "end1")); l.push_back(f); f.set_ordinal(base); f.set_name(x + sym_name(1, "end0")); f.set_forwarded_name(sym_name(1, "fw") + x); if (sym_concretize(l[0].get_name()[NL[k]] == f.get_name()[NL[k]])) return; l.push_back(f); }
    else for (unsigned i = 0; i < NF[k - 6]; i++) { unsigned j = (i * 7) % NF[k - 6]; exported_function f; f.set_ordinal(base + j); f.set_rva(j == 255 || j == 3 ? sym_u32("rva") | 0x10000000 : 0x10000000 + j); std::string nm = "n"; nm += (char)('a' + j / 26); nm += (char)('a' + j % 26); if (j % 5) f.set_name(nm); if (j % 11 == 4) f.set_forwarded_name("A." + nm); l.push_back(f); }
    in.set_name(dll); image_directory d; bool th = THROWS(d = rebuild_exports(p, in, l, s, 5)); sym_assert(!th, "large export tables are written to the last section"); if (th) return; sym_assert(layout_ok(p), "layout stays valid"); uint32_t dr = d.get_rva(), n = l.size(), names = 0; for (unsigned i = 0; i < n; i++) names += l[i].has_name(); sym_assert(str_at(p, u32_at(p, dr + 12), dll) && u32_at(p, dr + 16) == base && u32_at(p, dr + 20) == n && u32_at(p, dr + 24) == names, "export header fields"); std::vector<unsigned> at(n, 0); for (unsigned i = 0; i < n; i++) at[l[i].get_ordinal() - base] = i;
    uint32_t af = u32_at(p, dr + 28), an = u32_at(p, dr + 32), ao = u32_at(p, dr + 36); for (unsigned i = 0; i < n; i++) { const exported_function& f = l[at[i]]; uint32_t v = u32_at(p, af + 4 * i); if (f.is_forwarded()) sym_assert(v >= dr && v < dr + d.get_size() && str_at(p, v, f.get_forwarded_name()), "a forwarder points to its text in the directory"); else sym_assert(v == f.get_rva(), "function address"); }
    for (unsigned i = 0; i < names; i++) { unsigned q = u16_at(p, ao + 2 * i); sym_assert(q < n, "name ordinal is in range"); if (q >= n) return; uint32_t nr = u32_at(p, an + 4 * i); sym_assert(l[at[q]].has_name() && str_at(p, nr, l[at[q]].get_name()), "name table entry belongs to its ordinal"); if (i) sym_assert(cmp(p, u32_at(p, an + 4 * i - 4), nr) < 0, "names are in ascending order"); }
    exported_functions_list r = get_exported_functions(p); sym_assert(r.size() == n, "the same functions are read back"); if (r.size() != n) return;
    for (unsigned i = 0; i < n; i++) { const exported_function &f = l[at[i]], &g = r[i]; sym_assert(g.get_ordinal() == base + i && g.has_name() == f.has_name() && g.is_forwarded() == f.is_forwarded() && eqs(f.get_name(), g.get_name()) && eqs(f.get_forwarded_name(), g.get_forwarded_name()) && (g.is_forwarded() || g.get_rva() == f.get_rva()), "functions are read back"); sym_assert(exported_ordinal_exists(base + i, r), "ordinals exist"); } sym_reach("large");
}
