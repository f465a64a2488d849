// C19: bound import tables are decoded exactly and round-trip through rebuilding.
#include "dir.h"
#include "pe_bound_import.h"
static const unsigned TN = 48;
// expected outcome of reading table t: false when it has to be refused
static bool decode(const std::string& t, bound_import_module_list& out)
{
    unsigned pos = 0; auto name = [&](uint16_t o, std::string& s) -> bool { if (sym_concretize(o >= TN)) return false; unsigned k = (unsigned)sym_concretize(o); s.clear(); for (; k < TN; k++) { if (sym_concretize(t[k] == 0)) return true; s += t[k]; } return false; };
    for (;;) {
        if (pos + 8 > TN) return false; uint16_t off = get16(t, pos + 4); if (sym_concretize(off == 0)) return true; std::string s; if (!name(off, s)) return false; bound_import m(s, get32(t, pos)); uint16_t n = get16(t, pos + 6); pos += 8;
        for (unsigned i = 0; sym_concretize(i != n); i++) { if (pos + 8 > TN) return false; std::string r; if (!name(get16(t, pos + 4), r)) return false; m.add_module_ref(bound_import_ref(r, get32(t, pos))); pos += 8; }
        out.push_back(m);
    }
}
static void same(const bound_import_module_list& a, const bound_import_module_list& b)
{
    sym_assert(a.size() == b.size(), "as many modules are read"); if (a.size() != b.size()) return;
    for (size_t i = 0; i < a.size(); i++) { sym_assert(a[i].get_timestamp() == b[i].get_timestamp() && eqs(a[i].get_module_name(), b[i].get_module_name()), "module name and timestamp"); sym_assert(a[i].get_module_ref_count() == b[i].get_module_ref_count(), "as many references are read"); if (a[i].get_module_ref_count() != b[i].get_module_ref_count()) return; for (size_t j = 0; j < a[i].get_module_ref_count(); j++) { const bound_import_ref &x = a[i].get_module_ref_list()[j], &y = b[i].get_module_ref_list()[j]; sym_assert(x.get_timestamp() == y.get_timestamp() && eqs(x.get_module_name(), y.get_module_name()), "reference name and timestamp"); } }
}
// 48 bytes: up to five records whose name offsets and counts come from the given windows, names in the last 8 bytes
static std::string table(const uint16_t* offs, unsigned no, unsigned maxn, bool bigcount, unsigned slots)
{
    std::string t = sym_str(TN, "table"); for (unsigned i = 8 * slots; i < 43; i++) t[i] = i < 40 ? 0 : 'x'; for (unsigned i = 0; i < slots; i++) { uint16_t o = get16(t, 8 * i + 4), n = get16(t, 8 * i + 6); bool ok = false; for (unsigned j = 0; j < no; j++) ok = ok | (o == offs[j]); sym_assume(ok); bool c = n <= maxn; if (bigcount) c = c | (n >= 0xfffe); sym_assume(c); } return t;
}
static void check(const pe_base& p, const std::string& t, uint32_t size)
{
    bound_import_module_list want, got; bool ok = decode(t, want); if (size > TN) ok = false; bool th = THROWS(got = get_bound_import_module_list(p)); sym_assert(th == !ok, "a table is refused exactly when malformed"); if (th) { sym_reach("bound-refused"); return; } same(want, got); sym_reach("bound");
}
static void insection(const std::string& t) { bool pe64 = sym_choose(2, "PE32+"); pe_base p = mkimage(pe64, 0x200); attach(p, 0x1000, 0x200, 0x400, 0x200, std::string(0x1d0, (char)0xd0) + t); attach(p, 0x1200, 0x10, 0x600, 0x200, std::string(0x10, (char)0xd1)); p.update_image_size(); uint32_t size = sym_u32("size"); p.set_directory_rva(11, 0x11d0); p.set_directory_size(11, size); if (sym_concretize(size == 0)) sym_assume(0); check(p, t, (uint32_t)sym_ite(size > TN, 0xffff, 1)); }
static void inheaders(const std::string& t)
{
    bool pe64 = sym_choose(2, "PE32+"); Layout l = mkLayout(pe64, 1, 16); unsigned e = (l.end() + 15) & ~15; std::string f(e + TN + 0x40, 0); fillHeaders(f, l); unsigned o = l.sec(0); put32(f, l.lf + H_SALIGN, 16); put32(f, l.lf + H_FALIGN, 16); put32(f, l.lf + H_HDRSIZE, e + TN); put32(f, l.lf + H_IMGSIZE, 0x1040); put32(f, o + S_VSIZE, 0x40); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x40); put32(f, o + S_RAWPTR, e + TN); put32(f, l.dirs() + 88, e); uint32_t size = sym_u32("size"); if (sym_concretize(size == 0)) sym_assume(0); put32(f, l.dirs() + 92, size); f.replace(e, TN, t);
    std::istringstream in(f); pe_base p(pe_factory::create_pe(in)); check(p, t, (uint32_t)sym_ite(size > TN, 0xffff, 1));
}
static const uint16_t O1[6] = { 0, 40, 44, 46, 47, 48 }, O2[3] = { 0, 44, 0xffff };
extern "C" void c19_section() { insection(table(O1, 6, 1, false, 3)); }
extern "C" void c19_counts() { insection(table(O2, 3, 3, true, 4)); }
extern "C" void c19_headers() { inheaders(table(O1, 5, 1, false, 2)); }
// every name offset, one module or one module with one reference
extern "C" void c19_offsets() { std::string t = sym_str(TN, "table"); unsigned n = sym_choose(2, "references"); put16(t, 6, n); for (unsigned i = 8 + 8 * n; i < 16 + 8 * n; i++) t[i] = 0; for (unsigned i = 24; i < 44; i++) t[i] = 'x'; if (n) put16(t, 4, 24); insection(t); }
extern "C" void c19_none() { static const unsigned LEN[1] = { 0x20 }; pe_base p = dirimage(sym_choose(2, "PE32+"), 1, LEN); p.set_directory_rva(11, 0); p.set_directory_size(11, sym_u32("size")); sym_assert(get_bound_import_module_list(p).empty(), "no directory, no modules"); sym_reach("none"); }
// rebuilding
static void trip(bool middle, unsigned nmax, unsigned opts)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }; static const unsigned OFF[4] = { 0, 5, 0x103, 0x1ff }; bool pe64 = opts & 1, save = opts & 2, strip = opts & 4; pe_base p = dirimage(pe64, middle ? 3 : 2, LEN); section& s = p.get_image_sections()[1]; if (opts & 8) s.set_raw_data(std::string(0x200, 0));
    bound_import_module_list in; unsigned n = sym_choose(nmax + 1, "modules"), need = 8; for (unsigned i = 0; i < n; i++) { std::string nm = sym_name(sym_choose(3, "name"), "name"); bound_import m; m.set_module_name(nm); m.set_timestamp(sym_u32("time")); need += 8 + nm.size() + 1; unsigned k = sym_choose(3, "references"); for (unsigned j = 0; j < k; j++) { std::string rn = sym_name(1 + j, "reference"); if (j) { bound_import_ref r; r.set_module_name(rn); r.set_timestamp(sym_u32("rtime")); m.add_module_ref(r); } else m.add_module_ref(bound_import_ref(rn, sym_u32("rtime"))); need += 8 + rn.size() + 1; } in.push_back(m); }
    unsigned off = middle ? 0x200 - need - 5 + sym_choose(10, "fit") : OFF[sym_choose(4, "off")], pos = (off + 3) & ~3u; bool refuse = middle && pos + need > 0x200; Others o = others(p, 1); std::string before = s.get_raw_data(), t; p.set_directory_rva(11, 0x77); p.set_directory_size(11, 0x78);
    image_directory d; bool th = THROWS(d = rebuild_bound_imports(p, in, s, off, save, strip)); sym_assert(th == refuse, "a list is refused exactly when it does not fit"); if (th) { sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("rebuild-refused"); return; }
    uint32_t dr = d.get_rva(); sym_assert(dr == s.get_virtual_address() + pos && d.get_size() == need, "the directory lies at the aligned offset"); if (save) sym_assert(p.get_directory_rva(11) == dr && p.get_directory_size(11) == need, "directory entry set"); else { sym_assert(p.get_directory_rva(11) == 0x77 && p.get_directory_size(11) == 0x78, "directory entry kept"); p.set_directory_rva(11, dr); p.set_directory_size(11, need); }
    sym_assert(others_kept(p, o), "other sections are untouched"); sym_assert(layout_ok(p), "layout stays valid"); unsigned k = off < before.size() ? off : before.size(); std::string w; bytes_at(p, s.get_virtual_address(), k, w); sym_assert(w.size() == k && sym_eqmem(w.data(), before.data(), k), "bytes before the directory are untouched"); if (pos + need < before.size()) { unsigned q = before.size() - pos - need; bytes_at(p, dr + need, q, w); sym_assert(w.size() == q && sym_eqmem(w.data(), before.data() + pos + need, q), "bytes behind the directory are untouched"); }
    unsigned at = dr; for (unsigned i = 0; i < n; i++) { sym_assert(u32_at(p, at) == in[i].get_timestamp() && u16_at(p, at + 6) == in[i].get_module_ref_count() && str_at(p, dr + u16_at(p, at + 4), in[i].get_module_name()), "module record"); at += 8; for (unsigned j = 0; j < in[i].get_module_ref_count(); j++, at += 8) sym_assert(u32_at(p, at) == in[i].get_module_ref_list()[j].get_timestamp() && str_at(p, dr + u16_at(p, at + 4), in[i].get_module_ref_list()[j].get_module_name()), "reference record"); } sym_assert(u64_at(p, at) == 0, "the list ends with a null record");
    same(in, get_bound_import_module_list(p)); sym_reach("roundtrip");
}
extern "C" void c19_rebuild() { trip(false, 2, sym_choose(16, "options")); }
extern "C" void c19_fit() { trip(true, 2, sym_choose(16, "options")); }
// name offsets have 16 bits
extern "C" void c19_large()
{
    static const unsigned LEN[2] = { 0x20, 0x20 }; pe_base p = dirimage(false, 2, LEN); bound_import_module_list in; unsigned len = 65536 - 60 + sym_choose(50, "length"); in.push_back(bound_import(std::string(len, 'a'), 1)); std::string nm = sym_name(2, "name"); in.push_back(bound_import(nm, 2)); if (sym_choose(2, "reference")) in.back().add_module_ref(bound_import_ref(nm, 3)); bool th = THROWS(rebuild_bound_imports(p, in, p.get_image_sections()[1], 0)); if (th) { unsigned need = 24 + len + 1 + 3 + 11 * in.back().get_module_ref_count(); sym_assert(need > 65535, "a list that fits into 64 KB is accepted"); sym_reach("large-refused"); return; } same(in, get_bound_import_module_list(p)); sym_reach("large");
}
// many modules and references, long names
extern "C" void c19_many()
{
    static const unsigned LEN[2] = { 0x20, 0x20 }, N[3] = { 255, 256, 300 }, L[4] = { 254, 255, 256, 1023 }; pe_base p = dirimage(sym_choose(2, "PE32+"), 2, LEN); bound_import_module_list in; unsigned k = sym_choose(10, "case"); if (k < 3) { bound_import m(sym_name(2, "name"), sym_u32("time")); for (unsigned i = 0; i < N[k]; i++) m.add_module_ref(bound_import_ref(i == 254 ? sym_name(3, "ref") : std::string(1 + i % 3, 'a' + i % 26), i)); in.push_back(m); in.push_back(bound_import("x", 5)); } else if (k < 6) for (unsigned i = 0; i < N[k - 3]; i++) in.push_back(bound_import(i == 254 ? sym_name(3, "ref") : std::string(1 + i % 3, 'a' + i % 26), i)); else { std::string s(L[k - 6], 'n'); s[s.size() - 1] = sym_name(1, "last")[0]; in.push_back(bound_import(s, 1)); in.back().add_module_ref(bound_import_ref(s + "r", 2)); in.push_back(bound_import("x", 3)); }
    bool th = THROWS(rebuild_bound_imports(p, in, p.get_image_sections()[1], 5)); sym_assert(!th, "a list that fits into 64 KB is accepted"); if (th) return; same(in, get_bound_import_module_list(p)); uint32_t at = p.get_directory_rva(11), dr = at; for (size_t i = 0; i < in.size(); i++) { sym_assert(u32_at(p, at) == in[i].get_timestamp() && u16_at(p, at + 6) == in[i].get_module_ref_count() && str_at(p, dr + u16_at(p, at + 4), in[i].get_module_name()), "module record"); at += 8 + 8 * in[i].get_module_ref_count(); } sym_assert(u64_at(p, at) == 0, "the list ends with a null record"); sym_reach("many");
}
