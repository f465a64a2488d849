// C20: resource trees round-trip through rebuilding.
#include "dir.h"
#include "pe_resources.h"
static std::wstring wname(unsigned n, const char* nm) { std::wstring s(n, 0); bool ok = true; for (unsigned i = 0; i < n; i++) { uint16_t c = sym_u16(nm); ok = ok & ((c < 0xd800) | (c >= 0xe000)); s[i] = c; } sym_assume(ok); return s; }
static bool weq(const std::wstring& a, const std::wstring& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static bool wless(const std::wstring& a, const std::wstring& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (sym_concretize(a[i] < b[i])) return true; if (sym_concretize(a[i] != b[i])) return false; } return a.size() < b.size(); }
static void header(resource_directory& d) { d.set_characteristics(sym_u32("ch")); d.set_timestamp(sym_u32("time")); d.set_major_version(sym_u16("major")); d.get_minor_version(sym_u16("minor")); }
static resource_directory_entry data(unsigned len) { resource_directory_entry e; e.add_data_entry(resource_data_entry(sym_str(len, "data"), sym_u32("codepage"))); return e; }
static bool less(const resource_directory_entry& a, const resource_directory_entry& b) { if (a.is_named() != b.is_named()) return a.is_named(); if (a.is_named()) return wless(a.get_name(), b.get_name()); return sym_concretize(a.get_id() < b.get_id()); }
// a sorted copy of the tree (keys are distinct)
static resource_directory sorted(const resource_directory& d)
{
    resource_directory r; r.set_characteristics(d.get_characteristics()); r.set_timestamp(d.get_timestamp()); r.set_major_version(d.get_major_version()); r.get_minor_version(d.get_minor_version()); const resource_directory::entry_list& l = d.get_entry_list(); std::vector<unsigned> o; for (unsigned i = 0; i < l.size(); i++) { unsigned k = 0; while (k < o.size() && less(l[o[k]], l[i])) k++; o.insert(o.begin() + k, i); }
    for (unsigned i = 0; i < o.size(); i++) { const resource_directory_entry& e = l[o[i]]; resource_directory_entry n; if (e.is_named()) n.set_name(e.get_name()); else n.set_id(e.get_id()); if (e.includes_data()) n.add_data_entry(e.get_data_entry()); else n.add_resource_directory(sorted(e.get_resource_directory())); r.add_resource_directory_entry(n); } return r;
}
static void same(const resource_directory& a, const resource_directory& b)
{
    sym_assert(a.get_characteristics() == b.get_characteristics() && a.get_timestamp() == b.get_timestamp() && a.get_major_version() == b.get_major_version() && a.get_minor_version() == b.get_minor_version(), "directory header is kept"); const resource_directory::entry_list &x = a.get_entry_list(), &y = b.get_entry_list(); sym_assert(x.size() == y.size() && a.get_number_of_named_entries() == b.get_number_of_named_entries() && a.get_number_of_id_entries() == b.get_number_of_id_entries(), "as many entries"); if (x.size() != y.size()) return;
    for (size_t i = 0; i < x.size(); i++) { sym_assert(x[i].is_named() == y[i].is_named() && x[i].includes_data() == y[i].includes_data(), "entry kind is kept"); if (x[i].is_named() != y[i].is_named() || x[i].includes_data() != y[i].includes_data()) return; if (x[i].is_named()) sym_assert(weq(x[i].get_name(), y[i].get_name()), "entry name is kept"); else sym_assert(x[i].get_id() == y[i].get_id(), "entry id is kept"); if (x[i].includes_data()) sym_assert(eqs(x[i].get_data_entry().get_data(), y[i].get_data_entry().get_data()) && x[i].get_data_entry().get_codepage() == y[i].get_data_entry().get_codepage(), "data and code page are kept"); else same(x[i].get_resource_directory(), y[i].get_resource_directory()); }
}
// independent walk of the written tree: order, alignment, extents
struct Walk { const pe_base& p; uint32_t root; std::vector<std::pair<uint32_t, uint32_t> > used; Walk(const pe_base& q, uint32_t r) : p(q), root(r) {} void take(uint32_t a, uint32_t n) { used.push_back(std::make_pair(a, a + n)); } };
static void walk(Walk& w, uint32_t at, const resource_directory& d)
{
    const pe_base& p = w.p; const resource_directory::entry_list& l = d.get_entry_list(); unsigned named = 0; for (size_t i = 0; i < l.size(); i++) named += l[i].is_named();
    sym_assert(u32_at(p, at) == d.get_characteristics() && u32_at(p, at + 4) == d.get_timestamp() && u16_at(p, at + 8) == d.get_major_version() && u16_at(p, at + 10) == d.get_minor_version() && u16_at(p, at + 12) == named && u16_at(p, at + 14) == l.size() - named, "directory table header"); w.take(at, 16 + 8 * l.size());
    for (size_t i = 0; i < l.size(); i++) {
        uint32_t n = u32_at(p, at + 16 + 8 * i), o = u32_at(p, at + 20 + 8 * i); if (l[i].is_named()) { n = (uint32_t)sym_concretize(n); sym_assert(n >> 31, "named entries come first"); uint32_t a = w.root + (n & 0x7fffffff); unsigned len = l[i].get_name().size(); bool ok = u16_at(p, a) == len; for (unsigned k = 0; k < len; k++) ok = ok & (u16_at(p, a + 2 + 2 * k) == (uint16_t)l[i].get_name()[k]); sym_assert(ok, "entry name is counted UCS-2 text, names ascend"); w.take(a, 2 + 2 * len); sym_assert(a % 2 == 0, "names are word aligned"); } else sym_assert(n == l[i].get_id(), "numbered entries follow in ascending order");
        o = (uint32_t)sym_concretize(o); if (l[i].includes_data()) { sym_assert(!(o >> 31), "entry points to data"); uint32_t a = w.root + o; const std::string& s = l[i].get_data_entry().get_data(); uint32_t da = (uint32_t)sym_concretize(u32_at(p, a)), sz = u32_at(p, a + 4); sym_assert(a % 4 == 0 && da % 4 == 0, "data blocks are aligned"); sym_assert(sz == s.size() && u32_at(p, a + 8) == l[i].get_data_entry().get_codepage() && u32_at(p, a + 12) == 0, "data entry fields"); std::string t; if (s.size()) { sym_assert(bytes_at(p, da, s.size(), t) && eqs(s, t), "data bytes"); w.take(da, s.size()); } w.take(a, 16); } else { sym_assert(o >> 31, "entry points to a directory"); uint32_t a = w.root + (o & 0x7fffffff); sym_assert(a % 4 == 0, "directories are aligned"); walk(w, a, l[i].get_resource_directory()); }
    }
}
static void trip(resource_directory tree, bool middle, unsigned off, unsigned need, unsigned opts)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }; bool pe64 = opts & 1, save = opts & 2, strip = opts & 4; pe_base p = dirimage(pe64, middle ? 3 : 2, LEN, 0x200); section& s = p.get_image_sections()[1]; if (opts & 8) s.set_raw_data(std::string(0x200, 0)); Others o = others(p, 1); std::string before = s.get_raw_data(); p.set_directory_rva(2, 0x77); p.set_directory_size(2, 0x78); resource_directory want = sorted(tree); unsigned pos = (off + 3) & ~3u;
    image_directory d; bool th = THROWS(d = rebuild_resources(p, tree, s, off, save, strip)); if (!middle) sym_assert(!th, "a tree is accepted in the last section"); if (th) { sym_assert(need == 0 || pos + need > 0x200, "a tree is refused only when it does not fit"); sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("resources-refused"); return; }
    uint32_t dr = d.get_rva(); sym_assert(dr == s.get_virtual_address() + pos, "the directory lies at the aligned offset"); if (save) sym_assert(p.get_directory_rva(2) == dr && p.get_directory_size(2) == d.get_size(), "directory entry set"); else { sym_assert(p.get_directory_rva(2) == 0x77 && p.get_directory_size(2) == 0x78, "directory entry kept"); p.set_directory_rva(2, dr); p.set_directory_size(2, d.get_size()); }
    sym_assert(others_kept(p, o), "other sections are untouched"); sym_assert(layout_ok(p), "layout stays valid"); unsigned k = off < before.size() ? off : before.size(); std::string w; bytes_at(p, s.get_virtual_address(), k, w); sym_assert(w.size() == k && sym_eqmem(w.data(), before.data(), k), "bytes before the offset are untouched");
    Walk wk(p, dr); walk(wk, dr, want); bool ok = true; for (size_t i = 0; i < wk.used.size(); i++) { ok = ok && wk.used[i].first >= dr && wk.used[i].second - dr <= d.get_size(); for (size_t j = 0; j < i; j++) ok = ok && (wk.used[i].first >= wk.used[j].second || wk.used[j].first >= wk.used[i].second); } sym_assert(ok, "tables, names and data lie in the directory and do not overlap");
    resource_directory r = get_resources(p); same(want, r); sym_reach("resources");
}
// distinct keys of one directory: kind bit 1 = named
static void key(resource_directory_entry& e, unsigned kind, unsigned i, const char* nm, bool anykey)
{
    if (kind & 1) { std::wstring s = wname(anykey ? sym_choose(3, "namelen") : 1 + i % 2, nm); e.set_name(s); } else { uint32_t id = sym_u32("id"); sym_assume(id < 0x80000000u); e.set_id(id); }
}
static void distinct(const resource_directory& d) { const resource_directory::entry_list& l = d.get_entry_list(); for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) if (l[i].is_named() == l[j].is_named()) { if (l[i].is_named()) sym_assume(!weq(l[i].get_name(), l[j].get_name())); else sym_assume(l[i].get_id() != l[j].get_id()); } }
static const unsigned OFF[4] = { 0, 5, 0x103, 0x1ff };
// one level, up to n entries of any kind
static void flat(unsigned n, unsigned opts, unsigned lens) { resource_directory d; header(d); for (unsigned i = 0; i < n; i++) { resource_directory_entry e = data(sym_choose(lens, "len")); key(e, sym_choose(2, "named"), i, "name", n < 3); d.add_resource_directory_entry(e); } distinct(d); trip(d, false, OFF[opts % 4], 0, opts); }
extern "C" void c20_flat() { flat(1 + sym_choose(2, "n"), sym_choose(16, "options"), 4); }
extern "C" void c20_flat3() { flat(3, 6 + sym_choose(2, "PE32+"), 2); }
// type / name / language with one or two branches per level
static resource_directory deep(unsigned level, bool wide, bool all = true) { resource_directory d; header(d); unsigned n = wide ? 1 + sym_choose(2, "branches") : 1; for (unsigned i = 0; i < n; i++) { resource_directory_entry e; if (level == 0) e = data(i ? 5 : sym_choose(2, "len") * 3); else e.add_resource_directory(deep(level - 1, wide && i == 0, all)); key(e, all ? sym_choose(2, "named") : level != 1, i, "name", false); d.add_resource_directory_entry(e); } distinct(d); return d; }
extern "C" void c20_deepq() { unsigned opts = sym_choose(4, "options"); opts = opts * 5 & 15; trip(deep(2, true, false), false, OFF[opts % 4], 0, opts); }
extern "C" void c20_deep() { unsigned opts = sym_choose(4, "options"); opts = opts * 5 & 15; trip(deep(2, true), false, OFF[opts % 4], 0, opts); }
// data and directories side by side, an empty subdirectory
extern "C" void c20_mixed() { unsigned opts = sym_choose(16, "options"); resource_directory d; header(d); resource_directory_entry a = data(3), b, c; key(a, sym_choose(2, "named"), 0, "a", false); resource_directory sub; header(sub); if (sym_choose(2, "filled")) { resource_directory_entry e = data(1); key(e, 0, 0, "e", false); sub.add_resource_directory_entry(e); } b.add_resource_directory(sub); key(b, sym_choose(2, "named"), 1, "b", false); d.add_resource_directory_entry(b); d.add_resource_directory_entry(a); distinct(d); trip(d, false, OFF[opts % 4], 0, opts); }
// around the end of a section that cannot grow; the last data block may be empty
extern "C" void c20_fit() { unsigned len = sym_choose(6, "len"), named = sym_choose(2, "named"), opts = sym_choose(16, "options"); resource_directory d; header(d); resource_directory_entry e = data(len); key(e, named, 0, "n", false); d.add_resource_directory_entry(e); unsigned need = 16 + 8 + (named ? 6 : 0); need = ((need + 3) & ~3u) + 16 + len; trip(d, true, 0x200 - need - 9 + sym_choose(14, "fit"), need, opts); }
// data that ends exactly with the last section's extent
extern "C" void c20_tail() { unsigned len = sym_choose(3, "len"); resource_directory d; header(d); resource_directory_entry e = data(len); key(e, 0, 0, "n", false); d.add_resource_directory_entry(e); trip(d, false, 0x200 - 40 - len + sym_choose(8, "shift"), 0, sym_choose(16, "options")); }
extern "C" void c20_refused() { static const unsigned LEN[2] = { 0x20, 0x20 }; pe_base p = dirimage(false, 2, LEN); resource_directory d; header(d); sym_assert(THROWS(rebuild_resources(p, d, p.get_image_sections()[1])), "an empty tree is refused"); resource_directory_entry e; e.set_id(1); d.add_resource_directory_entry(e); sym_assert(THROWS(rebuild_resources(p, d, p.get_image_sections()[1])), "an entry without content is refused"); p.set_directory_rva(2, 0); sym_assert(get_resources(p).get_entry_list().empty(), "an image without resources has an empty tree"); sym_reach("refused"); }
// entries are values: copies are deep, also of an entry itself or of a part of it
extern "C" void c20_copies()
{
    resource_directory sub; header(sub); resource_directory_entry x = data(2), y = data(1); key(x, 0, 0, "x", false); key(y, 1, 1, "y", false); sub.add_resource_directory_entry(x); sub.add_resource_directory_entry(y); resource_directory_entry e; key(e, sym_choose(2, "named"), 0, "e", false); e.add_resource_directory(sub); resource_directory top; top.add_resource_directory_entry(e); resource_directory ref = top; resource_directory_entry& t = top.get_entry_list()[0];
    switch (sym_choose(6, "operation")) {
    case 0: t = *&t; same(ref, top); break;
    case 1: t.add_resource_directory(t.get_resource_directory()); same(ref, top); break;
    case 2: { resource_directory_entry want = sub.get_entry_list()[1]; t = t.get_resource_directory().get_entry_list()[1]; resource_directory a, b; a.add_resource_directory_entry(want); b.add_resource_directory_entry(t); same(a, b); break; }
    case 3: { t.add_data_entry(t.get_resource_directory().get_entry_list()[0].get_data_entry()); sym_assert(t.includes_data() && eqs(t.get_data_entry().get_data(), x.get_data_entry().get_data()) && t.get_data_entry().get_codepage() == x.get_data_entry().get_codepage(), "data is taken over"); t.add_data_entry(t.get_data_entry()); sym_assert(eqs(t.get_data_entry().get_data(), x.get_data_entry().get_data()), "data is kept"); break; }
    case 4: { resource_directory_entry c(t); t.get_resource_directory().get_entry_list()[0].get_data_entry().set_data("zz"); t.get_resource_directory().get_entry_list()[1].set_id(7); resource_directory b; b.add_resource_directory_entry(c); same(ref, b); break; }
    case 5: { resource_directory_entry c = data(1); c.set_id(3); c = t; t.add_data_entry(resource_data_entry("q", 1)); resource_directory b; b.add_resource_directory_entry(c); same(ref, b); t = c; same(ref, top); break; }
    }
    sym_reach("copies");
}
// finding entries
extern "C" void c20_find()
{
    resource_directory d; for (unsigned i = 0; i < 3; i++) { resource_directory_entry e = data(i); key(e, i != 1, i, "name", false); if (i == 1) e.set_id(sym_u32("anyid")); d.add_resource_directory_entry(e); } distinct(d); const resource_directory& c = d; uint32_t id = sym_u32("query"); std::wstring nm = wname(1 + sym_choose(2, "len"), "q"); int fi = -1, fn = -1; for (int i = 2; i >= 0; i--) { const resource_directory_entry& e = c.get_entry_list()[i]; if (e.is_named() ? sym_concretize(weq(e.get_name(), nm)) : 0) fn = i; if (!e.is_named() && sym_concretize(e.get_id() == id)) fi = i; }
    try { const resource_directory_entry& e = c.entry_by_id(id); sym_assert(fi >= 0 && &e == &c.get_entry_list()[fi], "the entry with the id is found"); } catch (const pe_exception&) { sym_assert(fi < 0, "an existing id is found"); } try { const resource_directory_entry& e = c.entry_by_name(nm); sym_assert(fn >= 0 && &e == &c.get_entry_list()[fn], "the entry with the name is found"); } catch (const pe_exception&) { sym_assert(fn < 0, "an existing name is found"); }
    sym_assert(d.get_number_of_named_entries() == 2 && d.get_number_of_id_entries() == 1, "entry counts"); d.clear_resource_directory_entry_list(); sym_assert(d.get_entry_list().empty() && d.get_number_of_named_entries() == 0 && d.get_number_of_id_entries() == 0 && THROWS(c.entry_by_id(id)) && THROWS(c.entry_by_name(nm)), "a cleared directory is empty"); sym_reach("find");
}
// an entry holds one thing: asking for the other is refused
extern "C" void c20_kinds()
{
    resource_directory_entry e; unsigned kind = 0; resource_directory sub; header(sub); std::string d = sym_str(1, "content"); uint32_t cp = sym_u32("codepage");
    for (unsigned step = 0; step < 4; step++) {
        const resource_directory_entry& c = e; resource_directory_entry f(e), g; g.set_id(1); if (sym_choose(2, "over")) g.add_data_entry(resource_data_entry("x", 1)); else g.add_resource_directory(sub); g = e; const resource_directory_entry* all[3] = { &c, &f, &g };
        for (unsigned i = 0; i < 3; i++) { resource_directory_entry& m = *const_cast<resource_directory_entry*>(all[i]); const resource_directory_entry& k = *all[i];
            sym_assert(THROWS(k.get_data_entry()) == (kind != 1) && THROWS(m.get_data_entry()) == (kind != 1) && THROWS(k.get_resource_directory()) == (kind != 2) && THROWS(m.get_resource_directory()) == (kind != 2), "only what the entry holds is given"); if (kind) sym_assert(k.includes_data() == (kind == 1), "the kind of entry is reported");
            if (kind == 1) sym_assert(eqs(k.get_data_entry().get_data(), d) && k.get_data_entry().get_codepage() == cp, "its data"); if (kind == 2) sym_assert(k.get_resource_directory().get_timestamp() == sub.get_timestamp(), "its directory"); }
        kind = 1 + sym_choose(2, "add"); if (kind == 1) e.add_data_entry(resource_data_entry(d, cp)); else e.add_resource_directory(sub); }
    sym_reach("kinds");
}
// many entries, long names, long data
extern "C" void c20_large()
{
    static const unsigned N[2] = { 255, 300 }, NL[5] = { 127, 255, 256, 300, 40000 }, DL[6] = { 255, 256, 0x1000, 0xffff, 0x10000, 0x10001 }; resource_directory d; header(d); unsigned k = sym_choose(15, "case"), opts = sym_choose(2, "PE32+") + 6;
    if (k < 4) { unsigned n = N[k & 1]; for (unsigned i = 0; i < n; i++) { unsigned j = (i * 7) % n; resource_directory_entry e; e.add_data_entry(resource_data_entry(j % 3 ? std::string(1 + j % 5, (char)j) : sym_str(1, "data"), j)); if (k >= 2) { std::wstring w; w += (wchar_t)(0x100 + j); e.set_name(w); } else e.set_id(j * 2 + 1); d.add_resource_directory_entry(e); } }
    else if (k < 9) { std::wstring w(NL[k - 4], L'n'); for (unsigned i = 0; i < 2; i++) { resource_directory_entry e = data(3); w[w.size() - 1] = i ? L'a' : 0x3000 + sym_u8("char"); e.set_name(w); d.add_resource_directory_entry(e); } }
    else for (unsigned i = 0; i < 2; i++) { resource_directory_entry e; std::string s(DL[k - 9], 'x'); s[0] = sym_u8("first"); s[s.size() - 1] = sym_u8("last"); e.add_data_entry(resource_data_entry(s, sym_u32("codepage"))); e.set_id(i); d.add_resource_directory_entry(e); }
    trip(d, false, 5, 0, opts);
}
