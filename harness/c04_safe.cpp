// C04: reading the resource tree and decoding resources is memory safe.
#include "any.h"
#include "pe_resources.h"
#include "pe_resource_viewer.h"
#include "resource_cursor_icon_reader.h"
#include "resource_bitmap_reader.h"
#include "resource_string_table_reader.h"
#include "resource_message_list_reader.h"
#include "resource_version_info_reader.h"
static void place(std::string& f, uint32_t rva, const std::string& d) { uint32_t o = any_off(rva); for (uint32_t i = 0; i < d.size(); i++) if (o + i >= 0x180 && o + i < f.size() && rva + i >= rva) f[o + i] = d[i]; }
static std::string directory(unsigned named, unsigned ids) { std::string s(16, 0); put32(s, 0, 0x55667788); put16(s, 12, named); put16(s, 14, ids); return s; }
static std::string two(uint32_t a, uint32_t b) { std::string s(8, 0); put32(s, 0, a); put32(s, 4, b); return s; }
static std::string dataentry(uint32_t rva, uint32_t size) { std::string s(16, 0); put32(s, 0, rva); put32(s, 4, size); put32(s, 8, 1252); return s; }
static uint32_t use(const resource_directory& d) { uint32_t h = 0; const resource_directory::entry_list& l = d.get_entry_list(); for (size_t i = 0; i < l.size(); i++) h += l[i].get_name().size() + (l[i].includes_data() ? l[i].get_data_entry().get_data().size() : use(l[i].get_resource_directory())); return h; }
static void readtree(const std::string& f) { pe_base p = any_open(f); resource_directory d; bool th = THROWS(d = get_resources(p)); any_sink = use(d); sym_reach(th ? "refused" : "read"); }
static Any plain(bool pe64) { Any a = { pe64, 0x200, 0x200, 0x200 }; return a; }
// the root directory at every place, with up to 3 entries or as many as possible
extern "C" void c04_root() { Any a = geometry(sym_choose(2, "pe64")); uint32_t at = any_rva(a, 16 + 8 * sym_choose(3, "cut"), "root"); static const uint16_t C[4] = { 0, 1, 2, 0xffff }; unsigned n = C[sym_choose(4, "named")], m = C[sym_choose(4, "ids")]; std::string f = any_file(a, 2, at, 0x10); std::string d = directory(n, m); for (unsigned i = 0; i < 3; i++) d += two(i < n ? 0x80000000 + 0x60 : 7 + i, 0x50); place(f, at, d); uint32_t base = at + 0x50 > at ? at + 0x50 : 0; place(f, base, dataentry(0x1100, 4)); readtree(f); }
// the root lies in the headers; a name, subdirectory, data entry or data at every place
enum { ROOT = 0x180 };
static std::string rooted(const Any& a, uint32_t name, uint32_t target) { std::string f = any_file(a, 2, ROOT, 0x100); place(f, ROOT, directory(name >> 31, !(name >> 31)) + two(name, target)); return f; }
extern "C" void c04_name() { Any a = geometry(false); unsigned cut = sym_choose(4, "cut"); uint32_t at = any_rva(a, 2 * cut, "name"), off = at - ROOT; if (sym_choose(2, "masked")) off &= 0x7fffffff; std::string f = rooted(a, off | 0x80000000, 0x30); place(f, ROOT + 0x30, dataentry(0, 0)); static const uint16_t L[5] = { 0, 1, 2, 3, 0xffff }; std::string t(2, 0); put16(t, 0, L[sym_choose(5, "len")]); for (int i = 0; i < 3; i++) { uint16_t c = sym_u16("char"); sym_assume((c < 0xd800) & (c > 0)); t += std::string((char*)&c, 2); } place(f, at, t); readtree(f); }
extern "C" void c04_sub() { Any a = geometry(false); uint32_t at = any_rva(a, 16 + 8 * sym_choose(3, "cut"), "directory"), off = at - ROOT; if (sym_choose(2, "masked")) off &= 0x7fffffff; std::string f = rooted(a, 1, off | 0x80000000); place(f, ROOT + 0x30, dataentry(0, 0)); static const uint16_t C[3] = { 0, 1, 0xffff }; std::string d = directory(0, C[sym_choose(3, "ids")]); d += two(5, 0x30); place(f, at, d); readtree(f); }
extern "C" void c04_entry() { Any a = geometry(false); uint32_t at = any_rva(a, 16, "entry"), off = at - ROOT; if (sym_choose(2, "masked")) off &= 0x7fffffff; std::string f = rooted(a, 1, off & 0x7fffffff); static const uint32_t S[3] = { 0, 1, 0xffffffff }; place(f, at, dataentry(0x1000, S[sym_choose(3, "size")])); readtree(f); }
extern "C" void c04_data() { Any a = geometry(sym_choose(2, "pe64")); uint32_t at = any_rva(a, 4, "data"); std::string f = rooted(a, 1, 0x30); uint32_t S[8] = { 0, 1, 4, 5, 0x201, any_end(a) - at, any_end(a) - at + 1, 0xffffffff }; place(f, ROOT + 0x30, dataentry(at, S[sym_choose(8, "size")])); any_bytes(f, at, 4, "bytes"); readtree(f); }
// every graph of three directories of up to two entries: cycles, shared and nested directories
extern "C" void c04_cycle() { std::string f = any_file(plain(false), 2, ANY_VA, 0x100); for (int i = 0; i < 3; i++) { unsigned n = sym_choose(3, "entries"); std::string d = directory(0, n); for (unsigned j = 0; j < n; j++) { unsigned t = sym_choose(4, "target"); d += two(j, t == 3 ? 0xc0 : 0x80000000 + 0x40 * t); } place(f, ANY_VA + 0x40 * i, d); } place(f, ANY_VA + 0xc0, dataentry(0x1100, 4)); readtree(f); }
// chains of directories as deep as the section allows
extern "C" void c04_deep() { static const unsigned N[5] = { 3, 255, 256, 257, 30000 }; unsigned n = N[sym_choose(5, "depth")]; uint32_t raw = (24 * n + 16 + 0x1ff) & ~0x1ffu; Any a = { (bool)sym_choose(2, "pe64"), raw, raw, 0x200 }; std::string f = any_file(a, 2, ANY_VA, raw); for (unsigned i = 0; i < n; i++) { std::string d(16, 0); put16(d, 14, 1); place(f, ANY_VA + 24 * i, d + two(1, i + 1 < n ? 0x80000000 + 24 * (i + 1) : 24 * n)); } readtree(f); }
// ---- icons and cursors
static void icons(resource_directory& root, bool named, unsigned kind)
{
    pe_resource_viewer v(root); resource_cursor_icon_reader r(v); uint32_t n = 0; std::wstring nm(L"n"); bool th = false;
    switch (kind) {
    case 0: th = THROWS(n = named ? r.get_icon_by_name(nm).size() : r.get_icon_by_id(7).size()); break; case 1: th = THROWS(n = named ? r.get_icon_by_name(9, nm).size() : r.get_icon_by_id_lang(9, 7).size()); break; case 2: th = THROWS(n = r.get_single_icon_by_id(1).size()); break; case 3: th = THROWS(n = r.get_single_icon_by_id_lang(9, 1).size()); break;
    case 4: th = THROWS(n = named ? r.get_cursor_by_name(nm).size() : r.get_cursor_by_id(7).size()); break; case 5: th = THROWS(n = named ? r.get_cursor_by_name(9, nm).size() : r.get_cursor_by_id_lang(9, 7).size()); break; case 6: th = THROWS(n = r.get_single_cursor_by_id(1).size()); break; case 7: th = THROWS(n = r.get_single_cursor_by_id_lang(9, 1).size()); break;
    }
    any_sink = n; sym_reach(th ? "refused" : "read");
}
static resource_directory_entry leaf(uint32_t lang, const std::string& s) { resource_directory_entry e; e.set_id(lang); e.add_data_entry(resource_data_entry(s, 0)); return e; }
static resource_directory_entry branch(const resource_directory& d, uint32_t id) { resource_directory_entry e; e.set_id(id); e.add_resource_directory(d); return e; }
// an arbitrary group of 0 to 36 bytes, images of 0 to 5 bytes, languages that fit or not
extern "C" void c04_group()
{
    unsigned kind = sym_choose(8, "call"); bool named = sym_choose(2, "named"); unsigned len[14] = { 0, 1, 5, 6, 7, 8, 19, 20, 21, 33, 34, 35, 36, 48 }; std::string g = sym_str(len[sym_choose(14, "len")], "group"); static const uint16_t C[6] = { 0, 1, 2, 3, 4, 0xffff }; if (g.size() >= 6) put16(g, 4, C[sym_choose(6, "count")]); bool ok = true; for (unsigned i = 0; 20 + 14 * i <= g.size(); i++) ok = ok & (get16(g, 18 + 14 * i) < 3); sym_assume(ok);
    uint32_t lang = 9 + (kind < 4 && sym_choose(2, "lang")); std::string image = sym_str(sym_choose(6, "image"), "image"); resource_directory root, groups, images, l1, l2; l1.add_resource_directory_entry(leaf(9, g)); l2.add_resource_directory_entry(leaf(lang, image)); resource_directory_entry e = branch(l1, 7); if (named) e.set_name(L"n"); groups.add_resource_directory_entry(e); images.add_resource_directory_entry(branch(l2, 1)); root.add_resource_directory_entry(branch(images, kind < 4 ? 3 : 1)); root.add_resource_directory_entry(branch(groups, kind < 4 ? 14 : 12)); icons(root, named, kind);
}
// trees of the wrong shape: data where a directory is expected and the other way round, empty directories
extern "C" void c04_shape()
{
    unsigned kind = sym_choose(13, "call"); static const uint32_t T[13] = { 3, 3, 3, 3, 1, 1, 1, 1, 2, 6, 11, 16, 24 }; std::string d = sym_str(sym_choose(3, "len"), "data"); resource_directory root; for (int g = 0; g < 2; g++) { uint32_t t = g ? (kind < 4 ? 14 : kind < 8 ? 12 : 99) : T[kind]; unsigned s = sym_choose(5, "shape"); resource_directory l, n; resource_directory_entry e; e.set_id(t); if (s == 0) e.add_data_entry(resource_data_entry(d, 0)); else if (s == 1) e.add_resource_directory(n); else if (s == 2) { n.add_resource_directory_entry(leaf(1, d)); e.add_resource_directory(n); } else if (s == 3) { n.add_resource_directory_entry(branch(l, 1)); e.add_resource_directory(n); } else { resource_directory x; l.add_resource_directory_entry(branch(x, 9)); n.add_resource_directory_entry(branch(l, 1)); e.add_resource_directory(n); } root.add_resource_directory_entry(e); }
    if (kind < 8) { icons(root, false, kind); return; } pe_resource_viewer v(root); bool th = false; bool bylang = sym_choose(2, "bylang"); uint32_t n = 0;
    switch (kind) {
    case 8: { resource_bitmap_reader r(v); th = THROWS(n = bylang ? r.get_bitmap_by_id_lang(9, 1).size() : r.get_bitmap_by_id(1).size()); break; } case 9: { resource_string_table_reader r(v); th = THROWS(n = bylang ? r.get_string_table_by_id_lang(9, 1).size() : r.get_string_table_by_id(1).size()); break; } case 10: { resource_message_list_reader r(v); th = THROWS(n = bylang ? r.get_message_table_by_id_lang(9, 1).size() : r.get_message_table_by_id(1).size()); break; }
    case 11: { resource_version_info_reader r(v); lang_string_values_map a; translation_values_map b; th = THROWS(bylang ? r.get_version_info_by_lang(a, b, 9) : r.get_version_info(a, b)); break; } default: th = THROWS(n = bylang ? v.get_resource_data_by_id(9, pe_resource_viewer::resource_manifest, 1).get_data().size() : v.get_resource_count(pe_resource_viewer::resource_manifest)); }
    any_sink = n; sym_assert(th || kind == 12, "a tree of the wrong shape is refused"); sym_reach(th ? "refused" : "read");
}
// ---- string tables, message tables and bitmaps
static resource_directory one(uint32_t type, const std::string& d) { resource_directory root, n, l; l.add_resource_directory_entry(leaf(9, d)); n.add_resource_directory_entry(branch(l, 1)); root.add_resource_directory_entry(branch(n, type)); return root; }
extern "C" void c04_strings() { unsigned k = sym_choose(4, "before"), n = 2 * (k == 3 ? 15 : 7 * k) + sym_choose(10, "len"); std::string d = sym_str(n, "table"); bool ok = true; for (unsigned i = 0; i + 1 < n; i += 2) ok = ok & (get16(d, i) < 0xd800) & (get16(d, i) > 3); sym_assume(ok); unsigned b = 2 * (k == 3 ? 15 : 7 * k); for (unsigned i = 0; i < b; i++) d[i] = 0; uint16_t r = (n - b) / 2; uint16_t L[7] = { 0, 1, (uint16_t)(r - 1), r, (uint16_t)(r + 1), 0x8000, 0xffff }; if (n - b >= 2) put16(d, b, L[sym_choose(7, "first")]); resource_directory root = one(6, d); pe_resource_viewer v(root); resource_string_table_reader t(v); bool th = THROWS(any_sink = sym_choose(2, "bylang") ? t.get_string_table_by_id_lang(9, 1).size() : t.get_string_by_id(5).size()); sym_reach(th ? "refused" : "read"); }
extern "C" void c04_messages()
{
    static const unsigned N[7] = { 0, 3, 4, 15, 16, 28, 40 }; unsigned n = N[sym_choose(7, "len")]; std::string d = sym_str(n, "table"); static const uint32_t B[6] = { 0, 1, 2, 0x15555554, 0x15555556, 0xffffffff }; if (n >= 4) put32(d, 0, B[sym_choose(6, "blocks")]); static const uint32_t I[4] = { 0, 1, 0xfffffffe, 0xffffffff }; bool end = sym_choose(2, "end"); uint32_t at = end ? n - 4 - sym_choose(9, "place") : 28;
    for (unsigned b = 0; b < 2 && 16 + 12 * b <= n; b++) { put32(d, 4 + 12 * b, I[sym_choose(4, "low")]); put32(d, 8 + 12 * b, I[sym_choose(b ? 1 : 4, "high")]); static const uint32_t O[6] = { 0, 0, 0, 0xfffffffa, 0xfffffffc, 0x80000000 }; unsigned k = b ? 0 : sym_choose(6, "offset"); put32(d, 12 + 12 * b, k == 0 ? at : k == 1 ? n : k == 2 ? n + 1 : O[k]); }
    if (n >= 16 && at >= 16 && at < n && at + 4 <= n) { uint16_t r = n - at, L[7] = { 0, 3, 4, 6, r, (uint16_t)(r + 1), 0xfffe }; put16(d, at, L[sym_choose(7, "length")]); for (uint32_t i = at + 2; i + 1 < n; i += 2) d[i + 1] &= 0x3f; if (at + 8 <= n) put16(d, at + 4, 4); } resource_directory root = one(11, d); pe_resource_viewer v(root); resource_message_list_reader t(v); bool th = THROWS(any_sink = t.get_message_table_by_id(1).size()); sym_reach(th ? "refused" : "read");
}
extern "C" void c04_bitmap() { std::string d = sym_str(sym_choose(48, "len"), "bitmap"); resource_directory root = one(2, d); pe_resource_viewer v(root); resource_bitmap_reader t(v); bool th = THROWS(any_sink = t.get_bitmap_by_id(1).size()); sym_reach(th ? "refused" : "read"); }
