// C22: icon and cursor resources round-trip.
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_cursor_icon_writer.h"
#include "resource_cursor_icon_reader.h"
#include <vector>
typedef pe_resource_viewer PV; typedef resource_cursor_icon_writer W; typedef resource_cursor_icon_reader R;
struct Img { uint8_t w, h, cc, rs; uint16_t a, b; std::string data; };
typedef std::vector<Img> Imgs;
static void p16(std::string& s, uint16_t v) { s.push_back(v); s.push_back(v >> 8); }
static void p32(std::string& s, uint32_t v) { p16(s, v); p16(s, v >> 16); }
static uint16_t g16(const std::string& s, size_t o) { return (uint8_t)s[o] | (uint8_t)s[o + 1] << 8; }
static uint32_t g32(const std::string& s, size_t o) { return g16(s, o) | (uint32_t)g16(s, o + 2) << 16; }
static Img img(bool cur, unsigned len) { Img i; i.w = sym_u8("width"); i.h = sym_u8("height"); i.cc = cur ? 0 : sym_u8("colors"); i.rs = cur ? 0 : sym_u8("reserved"); i.a = sym_u16("planes"); i.b = sym_u16("bits"); i.data = sym_str(len, "image"); return i; }
// the file of some images: layout 0 = one after the other, 1 = reversed with gaps, 2 = all share the longest
static std::string file(bool cur, const Imgs& v, uint16_t reserved, uint16_t type, unsigned layout = 0)
{
    std::string s; p16(s, reserved); p16(s, type); p16(s, v.size()); uint32_t hdr = 6 + 16 * v.size(), o = hdr; std::vector<uint32_t> at(v.size()); std::string body;
    for (size_t k = 0; k < v.size(); k++) { size_t i = layout == 1 ? v.size() - 1 - k : k; if (layout == 1) body += "g"; if (layout == 2 && k) { at[i] = at[0]; continue; } at[i] = o + body.size(); body += v[i].data; }
    for (size_t i = 0; i < v.size(); i++) { s.push_back(v[i].w); s.push_back(v[i].h); s.push_back(v[i].cc); s.push_back(v[i].rs); p16(s, v[i].a); p16(s, v[i].b); p32(s, v[i].data.size()); p32(s, at[i]); } return s + body;
}
static const PV::resource_type IT[2] = { PV::resource_icon, PV::resource_cursor }, GT[2] = { PV::resource_icon_group, PV::resource_cursor_group };
struct G { bool named; uint32_t id; std::wstring name; };
static G gkey(bool named) { G g; g.named = named; g.id = 0; if (named) { g.name = std::wstring(1, 0); g.name[0] = sym_u16("groupname"); } else g.id = sym_u32("groupid"); return g; }
static void addf(pe_resource_manager& m, bool cur, const std::string& f, const G& g, uint32_t l, W::icon_place_mode mode, uint32_t cp) { W w(m); if (cur) { if (g.named) w.add_cursor(f, g.name, l, mode, cp, 5); else w.add_cursor(f, g.id, l, mode, cp, 5); } else if (g.named) w.add_icon(f, g.name, l, mode, cp, 5); else w.add_icon(f, g.id, l, mode, cp, 5); }
static bool del(pe_resource_manager& m, bool cur, const G& g, uint32_t l) { W w(m); if (cur) return g.named ? w.remove_cursor_group(g.name, l) : w.remove_cursor_group(g.id, l); return g.named ? w.remove_icon_group(g.name, l) : w.remove_icon_group(g.id, l); }
static std::string bylang(const PV& v, bool cur, const G& g, uint32_t l) { R r(v); if (cur) return g.named ? r.get_cursor_by_name(l, g.name) : r.get_cursor_by_id_lang(l, g.id); return g.named ? r.get_icon_by_name(l, g.name) : r.get_icon_by_id_lang(l, g.id); }
static std::string byindex(const PV& v, bool cur, const G& g, uint32_t i) { R r(v); if (cur) return g.named ? r.get_cursor_by_name(g.name, i) : r.get_cursor_by_id(g.id, i); return g.named ? r.get_icon_by_name(g.name, i) : r.get_icon_by_id(g.id, i); }
static std::string group(const PV& v, bool cur, const G& g, uint32_t l) { return g.named ? v.get_resource_data_by_name(l, GT[cur], g.name).get_data() : v.get_resource_data_by_id(l, GT[cur], g.id).get_data(); }
static std::string stored(bool cur, const Img& i) { std::string s; if (cur) { p16(s, i.a); p16(s, i.b); } return s + i.data; }
// what stands in the tree after adding: group table, images, and every way to read them
static void stands(const PV& v, bool cur, const G& g, uint32_t l, uint32_t index, const Imgs& im, const std::vector<uint32_t>& ids, uint16_t reserved, uint16_t type)
{
    std::string t = group(v, cur, g, l); sym_assert(t.size() == 6 + 14 * im.size() && g16(t, 0) == reserved && g16(t, 2) == type && g16(t, 4) == im.size(), "group table header");
    for (size_t i = 0; i < im.size(); i++) { size_t o = 6 + 14 * i; if (cur) sym_assert(g16(t, o) == im[i].w && g16(t, o + 2) == 2 * im[i].h && g32(t, o + 8) == im[i].data.size() + 4, "cursor group record"); else sym_assert((uint8_t)t[o] == im[i].w && (uint8_t)t[o + 1] == im[i].h && (uint8_t)t[o + 2] == im[i].cc && (uint8_t)t[o + 3] == im[i].rs && g16(t, o + 4) == im[i].a && g16(t, o + 6) == im[i].b && g32(t, o + 8) == im[i].data.size(), "icon group record"); sym_assert(g16(t, o + 12) == ids[i], "images are numbered by the placement mode"); sym_assert(eqs(v.get_resource_data_by_id(l, IT[cur], ids[i]).get_data(), stored(cur, im[i])), "image is stored under its id"); }
    std::string want = file(cur, im, reserved, type); sym_assert(eqs(bylang(v, cur, g, l), want), "read back by language"); sym_assert(eqs(byindex(v, cur, g, index), want), "read back by index");
    for (size_t i = 0; i < im.size(); i++) { Imgs one(1, im[i]); std::string w = file(cur, one, reserved, type); R r(v); sym_assert(eqs(cur ? r.get_single_cursor_by_id_lang(l, ids[i]) : r.get_single_icon_by_id_lang(l, ids[i]), w) && eqs(cur ? r.get_single_cursor_by_id(ids[i]) : r.get_single_icon_by_id(ids[i]), w), "single image"); }
}
// the ids the documentation promises: all free ones from 1 on, or those after the greatest
static bool expect(const std::vector<uint32_t>& used, bool fill, unsigned n, std::vector<uint32_t>& ids)
{
    if (fill) { for (uint32_t c = 1; ids.size() < n; c++) { bool u = false; for (size_t i = 0; i < used.size(); i++) u = u | (used[i] == c); if (!sym_concretize(u)) ids.push_back(c); } return true; }
    uint32_t mx = 0; for (size_t i = 0; i < used.size(); i++) mx = sym_ite(used[i] > mx, used[i], mx); if (sym_concretize(mx > 0xffff - n)) return false; for (unsigned i = 0; i < n; i++) ids.push_back(mx + 1 + i); return true;
}
static void others(pe_resource_manager& m, bool cur, unsigned n, std::vector<uint32_t>& ids, std::vector<std::string>& data) { for (unsigned i = 0; i < n; i++) { uint32_t id = sym_u32("otherid"); sym_assume(id < 0x80000000u); for (size_t k = 0; k < ids.size(); k++) sym_assume(ids[k] != id); ids.push_back(id); data.push_back(sym_str(1, "otherdata")); m.add_resource(data.back(), IT[cur], id, 9); } }
static void kept(const PV& v, bool cur, const std::vector<uint32_t>& ids, const std::vector<std::string>& data) { for (size_t i = 0; i < data.size(); i++) { sym_assert(v.get_language_count(IT[cur], ids[i]) == 1 && eqs(v.get_resource_data_by_id(9, IT[cur], ids[i]).get_data(), data[i]), "other images are kept"); } }
static Imgs imgs(bool cur, unsigned n, unsigned lens) { Imgs v; for (unsigned i = 0; i < n; i++) v.push_back(img(cur, 1 + (i + lens) % 3)); return v; }
static void one(bool cur, unsigned existing, unsigned n, bool layouts)
{
    resource_directory root; pe_resource_manager m(root); std::vector<uint32_t> used; std::vector<std::string> data; others(m, cur, existing, used, data); bool fill = sym_choose(2, "mode"); G g = gkey(sym_choose(2, "named")); uint32_t l = sym_u32("lang"); Imgs im = imgs(cur, n, existing); unsigned layout = layouts ? sym_choose(3, "layout") : 0; if (layout == 2) for (unsigned i = 1; i < n; i++) im[i].data = im[0].data; uint16_t rs = sym_u16("hdr"), ty = sym_u16("type"); std::vector<uint32_t> ids; bool ok = expect(used, fill, n, ids); bool th = THROWS(addf(m, cur, file(cur, im, rs, ty, layout), g, l, fill ? W::icon_place_free_ids : W::icon_place_after_max_icon_id, sym_u32("codepage"))); sym_assert(th == !ok, "an icon is accepted exactly when ids are left"); kept(m, cur, used, data); if (th) { sym_assert(!m.resource_exists(GT[cur]), "a refused icon leaves no group"); return; } stands(m, cur, g, l, 0, im, ids, rs, ty); sym_assert(m.get_resource_count(IT[cur]) == existing + n && m.get_resource_count(GT[cur]) == 1, "nothing else is added"); sym_assert(del(m, cur, g, l), "group is removed"); kept(m, cur, used, data); sym_assert(!m.resource_exists(GT[cur]) && (existing ? m.get_resource_count(IT[cur]) == existing : !m.resource_exists(IT[cur])), "exactly the group and its images are removed"); sym_reach("icon");
}
extern "C" void c22_icon() { one(false, sym_choose(3, "existing"), 1 + sym_choose(2, "n"), true); }
extern "C" void c22_cursor() { one(true, sym_choose(3, "existing"), 1 + sym_choose(2, "n"), true); }
extern "C" void c22_fill3() { one(sym_choose(2, "cursor"), 3, 3, false); }
// a second file into the same group (any language), into another group, or the same group in another language; then removal of one of them
extern "C" void c22_second()
{
    bool cur = sym_choose(2, "cursor"); resource_directory root; pe_resource_manager m(root); unsigned how = sym_choose(3, "how"); bool named = sym_choose(2, "named"), fill = sym_choose(2, "mode"); W::icon_place_mode mode = fill ? W::icon_place_free_ids : W::icon_place_after_max_icon_id; G g = gkey(named), h = gkey(how == 1 ? !named : named); if (how != 1) h = g; uint32_t l = sym_u32("lang"), l2 = l; if (how == 2) { l2 = sym_u32("lang2"); sym_assume(l2 != l); } else if (how == 1) l2 = sym_u32("lang2");
    uint16_t rs = sym_u16("hdr"), ty = sym_u16("type"), rs2 = sym_u16("hdr2"), ty2 = sym_u16("type2"); uint32_t cp = sym_u32("codepage"), cp2 = sym_u32("codepage2"); Imgs a = imgs(cur, 1 + sym_choose(2, "n"), 0), b = imgs(cur, 1 + sym_choose(2, "n2"), 1); addf(m, cur, file(cur, a, rs, ty), g, l, mode, cp); addf(m, cur, file(cur, b, rs2, ty2), h, l2, mode, cp2); std::vector<uint32_t> ia, ib, all; for (unsigned i = 0; i < a.size() + b.size(); i++) { (i < a.size() ? ia : ib).push_back(i + 1); all.push_back(i + 1); }
    if (how == 0) { Imgs both = a; both.insert(both.end(), b.begin(), b.end()); stands(m, cur, g, l, 0, both, all, rs, ty); sym_assert((g.named ? m.get_resource_data_by_name(l, GT[cur], g.name) : m.get_resource_data_by_id(l, GT[cur], g.id)).get_codepage() == cp, "the code page of the group is kept"); sym_assert(del(m, cur, g, l), "group is removed"); sym_assert(!m.resource_exists(IT[cur]) && !m.resource_exists(GT[cur]), "all images of the group are removed"); sym_reach("append"); return; }
    stands(m, cur, g, l, 0, a, ia, rs, ty); stands(m, cur, h, l2, how == 2, b, ib, rs2, ty2); bool first = sym_choose(2, "remove"); sym_assert(del(m, cur, first ? g : h, first ? l : l2), "group is removed"); if (first) stands(m, cur, h, l2, 0, b, ib, rs2, ty2); else stands(m, cur, g, l, 0, a, ia, rs, ty); sym_assert(m.get_resource_count(IT[cur]) == (first ? b : a).size() && m.get_resource_count(GT[cur]) == 1, "exactly the group and its images are removed"); sym_assert(THROWS(bylang(m, cur, first ? g : h, first ? l : l2)), "a removed group is not found"); sym_reach(how == 1 ? "other group" : "other language");
}
// files whose tables do not fit are refused and change nothing
extern "C" void c22_refused()
{
    bool cur = sym_choose(2, "cursor"); unsigned n = sym_choose(3, "n"), len = sym_choose(4, "cut"); std::string s; p16(s, sym_u16("hdr")); p16(s, sym_u16("type")); uint16_t count = n + (len == 1); p16(s, count); bool ok = n > 0 && len != 1; uint32_t total = 6 + 16 * n + 5, hdr = 6 + 16 * count; for (unsigned i = 0; i < n; i++) { s += sym_str(8, "entry"); uint32_t sz = sym_u32("size"), o = sym_u32("offset"); p32(s, sz); p32(s, o); ok = ok & (sz != 0) & (o >= hdr) & (o <= total) & (sz <= total - o); } s += sym_str(5, "images"); if (len == 2) { s.resize(6 + 16 * n - 1); ok = false; } if (len == 3) { s.resize(sym_choose(6, "length")); ok = false; }
    ok = sym_concretize(ok); if (ok) { sym_reach("accepted"); for (unsigned i = 0; i < n; i++) sym_assume(sym_concretize(g32(s, 6 + 16 * i + 8)) < 6); } resource_directory root; pe_resource_manager m(root); G g = gkey(false); bool th = THROWS(addf(m, cur, s, g, 1, W::icon_place_free_ids, 0)); sym_assert(th == !ok, "a file is accepted exactly when its images lie in it"); if (th) { sym_assert(root.get_entry_list().empty(), "a refused file changes nothing"); sym_reach("refused"); } else { for (unsigned i = 0; i < n; i++) { uint32_t sz = g32(s, 6 + 16 * i + 8), o = g32(s, 6 + 16 * i + 12); o = (uint32_t)sym_concretize(o); sz = (uint32_t)sym_concretize(sz); std::string d = m.get_resource_data_by_id(1, IT[cur], i + 1).get_data(); if (cur) d = d.substr(4); sym_assert(eqs(d, s.substr(o, sz)), "the image is taken from its place"); } }
}
// reading any group table: answers or an exception
static void anygroup(bool cur, unsigned glen, unsigned dlen)
{
    resource_directory root; pe_resource_manager m(root); std::string t = sym_str(glen, "group"), d = sym_str(dlen, "image"); m.add_resource(t, GT[cur], 7, 1); if (sym_choose(2, "image")) m.add_resource(d, IT[cur], 3, 1); if (sym_choose(2, "other")) m.add_resource(t, GT[cur], std::wstring(L"g"), 1); R r(m); uint32_t id = sym_u32("id"); unsigned what = sym_choose(5, "what"); std::string out;
    bool th = THROWS(out = what == 0 ? (cur ? r.get_cursor_by_id_lang(1, 7) : r.get_icon_by_id_lang(1, 7)) : what == 1 ? (cur ? r.get_cursor_by_id(7) : r.get_icon_by_id(7)) : what == 2 ? (cur ? r.get_single_cursor_by_id_lang(1, id) : r.get_single_icon_by_id_lang(1, id)) : what == 3 ? (cur ? r.get_single_cursor_by_id(id) : r.get_single_icon_by_id(id)) : (cur ? r.get_cursor_by_name(1, L"g") : r.get_icon_by_name(1, L"g")));
    unsigned n = glen < 6 ? 0 : g16(t, 4); if (glen < 6) sym_assert(th, "a group without header is refused"); else if (sym_concretize(6 + 14 * n > glen)) sym_assert(th, "a group without records is refused"); sym_reach(th ? "group refused" : "group read");
}
extern "C" void c22_groups() { bool cur = sym_choose(2, "cursor"); static const unsigned L[8] = { 0, 5, 6, 19, 20, 21, 33, 34 }; anygroup(cur, L[sym_choose(8, "grouplen")], sym_choose(6, "imagelen")); }
extern "C" void c22_delany() { bool cur = sym_choose(2, "cursor"); static const unsigned L[8] = { 0, 5, 6, 19, 20, 21, 33, 34 }; resource_directory root; pe_resource_manager m(root); std::string t = sym_str(L[sym_choose(8, "grouplen")], "group"); uint32_t id = sym_u32("id"); m.add_resource(t, GT[cur], 7, 1); m.add_resource("x", IT[cur], id, 1); m.add_resource("y", IT[cur], id, 2); G g = { false, 7, L"" }; unsigned n = t.size() < 6 ? 0 : g16(t, 4); bool bad = t.size() < 6 || sym_concretize(6 + 14 * n > t.size()); bool hit = false; if (!bad) { n = (unsigned)sym_concretize(n); for (unsigned i = 0; i < n; i++) hit = hit | (g16(t, 6 + 14 * i + 12) == id); } hit = sym_concretize(hit); bool th = THROWS(del(m, cur, g, 1)); sym_assert(th == bad, "only well formed groups are removed"); sym_assert(m.resource_exists(GT[cur]) == bad, "the group is removed"); sym_assert(m.get_language_count(IT[cur], id) == (hit ? 1u : 2u), "its images are removed"); sym_reach("removed"); }
// groups and counts that run out
extern "C" void c22_overflow() { bool cur = sym_choose(2, "cursor"); resource_directory root; pe_resource_manager m(root); uint32_t have = 0xfffe + sym_choose(2, "have"); std::string t(6 + 14 * have, 0); t[4] = have; t[5] = have >> 8; m.add_resource(t, GT[cur], 7, 1); Imgs im = imgs(cur, 1 + sym_choose(2, "n"), 0); G g = { false, 7, L"" }; bool ok = have + im.size() <= 0xffff; bool th = THROWS(addf(m, cur, file(cur, im, 0, 1), g, 1, W::icon_place_free_ids, 0)); sym_assert(th == !ok, "a group holds 65535 images"); std::string u = group(m, cur, g, 1); if (th) sym_assert(eqs(u, t) && !m.resource_exists(IT[cur]), "a refused icon changes nothing"); else sym_assert(g16(u, 4) == 0xffff && u.size() == 6 + 14 * 0xffff, "the group grows"); sym_reach("overflow"); }
// the file may be data of the edited tree
extern "C" void c22_alias() { bool cur = sym_choose(2, "cursor"); resource_directory root; pe_resource_manager m(root); Imgs im = imgs(cur, 2, 0); std::string f = file(cur, im, 0, 1); m.add_resource(f, PV::resource_rcdata, 1, 1); G g = gkey(sym_choose(2, "named")); const resource_directory& c = root; addf(m, cur, c.get_entry_list()[0].get_resource_directory().get_entry_list()[0].get_resource_directory().get_entry_list()[0].get_data_entry().get_data(), g, 1, W::icon_place_free_ids, 0); std::vector<uint32_t> ids; ids.push_back(1); ids.push_back(2); stands(m, cur, g, 1, 0, im, ids, 0, 1); sym_reach("alias"); }
// adding to a group whose table is anything
extern "C" void c22_addany()
{
    bool cur = sym_choose(2, "cursor"); static const unsigned L[9] = { 0, 1, 5, 6, 19, 20, 21, 33, 34 }; unsigned len = L[sym_choose(9, "grouplen")]; resource_directory root; pe_resource_manager m(root); std::string t = sym_str(len, "group"); uint32_t cp = sym_u32("codepage"); if (len >= 6) { uint32_t c = g16(t, 4); sym_assume((c <= 3) | (c >= 0xfffe)); } m.add_resource(t, GT[cur], 7, 1, cp); Imgs im = imgs(cur, 1, 0); G g = { false, 7, L"" };
    bool ok = len >= 6 && sym_concretize(g16(t, 4)) * 14 + 6 <= len; bool th = THROWS(addf(m, cur, file(cur, im, 0, 1), g, 1, W::icon_place_free_ids, 3)); sym_assert(th == !ok, "an image is added exactly to whole groups"); if (th) { sym_assert(eqs(group(m, cur, g, 1), t) && !m.resource_exists(IT[cur]), "a refused image changes nothing"); sym_reach("refused"); return; }
    std::string now = group(m, cur, g, 1); unsigned n = sym_concretize(g16(t, 4)); sym_assert(now.size() == 6 + 14 * (n + 1) && g16(now, 4) == n + 1 && g16(now, 0) == g16(t, 0) && g16(now, 2) == g16(t, 2) && eqs(now.substr(6, 14 * n), t.substr(6, 14 * n)) && g16(now, 6 + 14 * n + 12) == 1, "the group grows by one record"); sym_assert(eqs(m.get_resource_data_by_id(1, IT[cur], 1).get_data(), stored(cur, im[0])) && m.get_resource_data_by_id(1, GT[cur], 7).get_codepage() == cp, "the image is stored, the group keeps its code page"); sym_reach("added");
}
// large images, many images
extern "C" void c22_large()
{
    static const unsigned N[6] = { 255, 256, 0xfffb, 0xffff, 0x10000, 0x10005 }, C[3] = { 255, 256, 257 }; bool cur = sym_choose(2, "cursor"), fill = sym_choose(2, "mode"); unsigned k = sym_choose(9, "case"); resource_directory root; pe_resource_manager m(root); G g = gkey(false); g.id = 7; uint16_t rs = sym_u16("hdr"), ty = sym_u16("type"); Imgs a, b; std::vector<uint32_t> ids; W::icon_place_mode mode = fill ? W::icon_place_free_ids : W::icon_place_after_max_icon_id;
    if (k < 6) { for (int i = 0; i < 2; i++) { a.push_back(img(cur, 1)); a[i].data += std::string(N[k] - 2, 'i') + sym_str(1, "imageend"); } } else for (unsigned i = 0; i < C[k - 6]; i++) if (i == 0 || i == 254) a.push_back(img(cur, 2)); else { Img q; q.w = i; q.h = 3 * i; q.cc = cur ? 0 : i; q.rs = cur ? 0 : 1; q.a = i; q.b = 2 * i; q.data = std::string(1 + i % 3, (char)i); a.push_back(q); }
    for (size_t i = 0; i < a.size(); i++) ids.push_back(1 + i); addf(m, cur, file(cur, a, rs, ty), g, 9, mode, 0); stands(m, cur, g, 9, 0, a, ids, rs, ty); b.push_back(img(cur, 2)); a.push_back(b[0]); ids.push_back(a.size()); addf(m, cur, file(cur, b, rs, ty), g, 9, mode, 0); stands(m, cur, g, 9, 0, a, ids, rs, ty); sym_assert(del(m, cur, g, 9) && !m.resource_exists(IT[cur]) && !m.resource_exists(GT[cur]), "exactly the group and its images are removed"); sym_reach("large");
}
