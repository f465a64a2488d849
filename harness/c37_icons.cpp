// C37: icon and cursor groups some other tool stored are read as exactly the files they describe (and removed with exactly their images, C22).
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_cursor_icon_writer.h"
#include "resource_cursor_icon_reader.h"
#include <vector>
typedef pe_resource_viewer PV; typedef resource_cursor_icon_writer W; typedef resource_cursor_icon_reader R;
#define THROWS(stmt) ([&]() -> bool { try { stmt; return false; } catch (const pe_exception&) { return true; } }())
static void p16(std::string& s, uint16_t v) { s.push_back(v); s.push_back(v >> 8); }
static void p32(std::string& s, uint32_t v) { p16(s, v); p16(s, v >> 16); }
static const PV::resource_type IT[2] = { PV::resource_icon, PV::resource_cursor }, GT[2] = { PV::resource_icon_group, PV::resource_cursor_group };
struct Rec { uint16_t w, h, a, b; uint8_t cc, rs; uint32_t size; uint16_t id; };   // one record of a group table; size is that of the image in the file
static Rec rec(bool cur, uint16_t id, uint32_t size) { Rec r; r.id = id; r.size = size; r.w = sym_u16("width"); r.h = sym_u16("height"); if (cur) { sym_assume(r.w <= 256); sym_assume(r.h <= 512); } r.a = sym_u16("planes"); r.b = sym_u16("bits"); r.cc = sym_u8("colors"); r.rs = sym_u8("reserved"); return r; }
typedef std::vector<Rec> Table; struct Group { uint16_t hdr, type; Table t; };
static std::string bytes(bool cur, const Group& g)
{
    std::string s; p16(s, g.hdr); p16(s, g.type); p16(s, g.t.size());
    for (size_t i = 0; i < g.t.size(); i++) { const Rec& r = g.t[i]; if (cur) { p16(s, r.w); p16(s, r.h); } else { s.push_back((char)r.w); s.push_back((char)r.h); s.push_back((char)r.cc); s.push_back((char)r.rs); } p16(s, r.a); p16(s, r.b); p32(s, r.size + (cur ? 4 : 0)); p16(s, r.id); }
    return s;
}
// the file these records describe; img holds what is stored for each
static std::string file(bool cur, const Group& g, const std::vector<std::string>& img)
{
    std::string s, body; p16(s, g.hdr); p16(s, g.type); p16(s, g.t.size()); uint32_t at = 6 + 16 * g.t.size();
    for (size_t i = 0; i < g.t.size(); i++) { const Rec& r = g.t[i]; s.push_back((char)r.w); if (cur) { s.push_back((char)(r.h >> 1)); p16(s, 0); s += img[i].substr(0, 4); } else { s.push_back((char)r.h); s.push_back((char)r.cc); s.push_back((char)r.rs); p16(s, r.a); p16(s, r.b); } p32(s, r.size); p32(s, at); at += r.size; body += img[i].substr(cur ? 4 : 0); }
    return s + body;
}
static std::string image(bool cur, unsigned len) { return sym_str(len + (cur ? 4 : 0), "image"); }
struct K { bool named; uint32_t id; std::wstring name; };
static K key(bool named) { K g; g.named = named; g.id = 0; if (named) { g.name = std::wstring(1, 0); g.name[0] = sym_u16("groupname"); } else { g.id = sym_u32("groupid"); sym_assume(g.id < 0x80000000u); } return g; }
static void put(pe_resource_manager& m, bool cur, const K& k, uint32_t lang, const std::string& d) { if (k.named) m.add_resource(d, GT[cur], k.name, lang); else m.add_resource(d, GT[cur], k.id, lang); }
static std::string bylang(const PV& v, bool cur, const K& g, uint32_t l) { R r(v); if (cur) return g.named ? r.get_cursor_by_name(l, g.name) : r.get_cursor_by_id_lang(l, g.id); return g.named ? r.get_icon_by_name(l, g.name) : r.get_icon_by_id_lang(l, g.id); }
static std::string byindex(const PV& v, bool cur, const K& g, uint32_t i) { R r(v); if (cur) return g.named ? r.get_cursor_by_name(g.name, i) : r.get_cursor_by_id(g.id, i); return g.named ? r.get_icon_by_name(g.name, i) : r.get_icon_by_id(g.id, i); }
static std::string single(const PV& v, bool cur, uint32_t id, uint32_t l) { R r(v); return cur ? r.get_single_cursor_by_id_lang(l, id) : r.get_single_icon_by_id_lang(l, id); }
static std::string singlei(const PV& v, bool cur, uint32_t id, uint32_t i) { R r(v); return cur ? r.get_single_cursor_by_id(id, i) : r.get_single_icon_by_id(id, i); }
static std::string alone(bool cur, const Group& g, size_t i, const std::string& img) { Group o; o.hdr = g.hdr; o.type = g.type; o.t.push_back(g.t[i]); return file(cur, o, std::vector<std::string>(1, img)); }
static void ids3(uint16_t* id) { id[0] = sym_u16("id"); id[1] = sym_u16("id"); id[2] = sym_u16("id"); sym_assume((id[0] != id[1]) & (id[1] != id[2]) & (id[0] != id[2])); }

// any images in any order, also listed twice; one of the stored images listed by nobody
static void order(unsigned n)
{
    bool cur = sym_choose(2, "cursor"); unsigned named = sym_choose(2, "named"); uint16_t id[3]; ids3(id); std::string im[3]; resource_directory root; pe_resource_manager m(root); uint32_t l = sym_u32("lang"); Group g; g.hdr = sym_u16("hdr"); g.type = sym_u16("type"); std::vector<std::string> v; int first[3] = { -1, -1, -1 };
    for (unsigned i = 0; i < 3; i++) im[i] = image(cur, i == 1 ? 0 : 1 + i); for (unsigned i = 0; i < n; i++) { unsigned k = sym_choose(3, "which"); g.t.push_back(rec(cur, id[k], im[k].size() - (cur ? 4 : 0))); v.push_back(im[k]); if (first[k] < 0) first[k] = i; }
    K k = key(named); bool before = sym_choose(2, "groupfirst"); if (before) put(m, cur, k, l, bytes(cur, g)); for (unsigned i = 0; i < 3; i++) m.add_resource(im[i], IT[cur], id[i], l); if (!before) put(m, cur, k, l, bytes(cur, g));
    std::string want = file(cur, g, v); sym_assert(eqs(bylang(m, cur, k, l), want), "the group's file, by language"); sym_assert(eqs(byindex(m, cur, k, 0), want), "the group's file, by index");
    for (unsigned i = 0; i < 3; i++) if (first[i] < 0) sym_assert(THROWS(single(m, cur, id[i], l)) & THROWS(singlei(m, cur, id[i], 0)), "an image no group lists is refused"); else { std::string w = alone(cur, g, first[i], im[i]), w2 = w; sym_assert(eqs(single(m, cur, id[i], l), w) & eqs(singlei(m, cur, id[i], 0), w), "a single image with its record"); }
    uint32_t o = sym_u32("other"); sym_assume(o != l); sym_assert(THROWS(bylang(m, cur, k, o)) & THROWS(byindex(m, cur, k, 1)) & THROWS(single(m, cur, id[0], o)) & THROWS(singlei(m, cur, id[0], 1)), "languages that do not exist are refused"); sym_reach("end");
}
extern "C" void c37_order1() { order(sym_choose(2, "n")); }
extern "C" void c37_order2() { order(2); }
extern "C" void c37_order3() { order(3); }

// a group in two languages with tables of their own; two images, each in any of the languages or only in a third
extern "C" void c37_langs()
{
    bool cur = sym_choose(2, "cursor"); unsigned named = sym_choose(2, "named"); uint16_t id[3]; ids3(id); uint32_t l[3]; l[0] = sym_u32("lang"); l[1] = sym_u32("lang"); l[2] = sym_u32("lang"); sym_assume((l[0] != l[1]) & (l[1] != l[2]) & (l[0] != l[2])); resource_directory root; pe_resource_manager m(root);
    std::vector<int> in[2]; std::string im[2][3]; for (unsigned i = 0; i < 2; i++) { static const int S[8][3] = { { 0, -1, -1 }, { 1, -1, -1 }, { 2, -1, -1 }, { 0, 1, -1 }, { 1, 0, -1 }, { 2, 0, -1 }, { 1, 2, -1 }, { 2, 0, 1 } }; unsigned s = sym_choose(8, "langs"); for (unsigned j = 0; j < 3; j++) if (S[s][j] >= 0) { in[i].push_back(S[s][j]); im[i][S[s][j]] = image(cur, 2 + i); m.add_resource(im[i][S[s][j]], IT[cur], id[i], l[S[s][j]]); } }
    Group g[2]; K k = key(named); for (unsigned x = 0; x < 2; x++) { g[x].hdr = sym_u16("hdr"); g[x].type = sym_u16("type"); for (unsigned i = 0; i < 2; i++) { unsigned w = x ? 1 - i : i; g[x].t.push_back(rec(cur, id[w], 2 + w)); } put(m, cur, k, l[x], bytes(cur, g[x])); }
    for (unsigned x = 0; x < 2; x++)
    {
        bool ok = true, oki = true; std::vector<std::string> v, vi; for (unsigned i = 0; i < 2; i++) { unsigned w = x ? 1 - i : i; bool has = !im[w][x].empty(); ok = ok && has; v.push_back(im[w][x]); if (has) vi.push_back(im[w][x]); else if (x < in[w].size()) vi.push_back(im[w][in[w][x]]); else oki = false; }
        if (ok) { std::string want = file(cur, g[x], v); sym_assert(eqs(bylang(m, cur, k, l[x]), want), "the language's own images"); } else sym_assert(THROWS(bylang(m, cur, k, l[x])), "images missing in the language are refused");
        if (oki) { std::string want = file(cur, g[x], vi); sym_assert(eqs(byindex(m, cur, k, x), want), "by index: the group's language, else the image's of that index"); } else sym_assert(THROWS(byindex(m, cur, k, x)), "images missing at the index are refused");
        for (unsigned i = 0; i < 2; i++) if (!im[i][x].empty()) { std::string w = alone(cur, g[x], x ? 1 - i : i, im[i][x]); sym_assert(eqs(single(m, cur, id[i], l[x]), w), "a single image with the record of its language"); } else sym_assert(THROWS(single(m, cur, id[i], l[x])), "a single image missing in the language is refused");
    }
    for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < in[i].size(); j++) { unsigned x = in[i][j]; if (x == 2) sym_assert(THROWS(singlei(m, cur, id[i], j)) & THROWS(single(m, cur, id[i], l[2])), "an image in a language without group is refused"); else { std::string w = alone(cur, g[x], x ? 1 - i : i, im[i][x]); sym_assert(eqs(singlei(m, cur, id[i], j), w), "a single image by index has the record of that language"); } }
    sym_reach("end");
}

// several groups, named and numbered, in any order of storing: a single image gets the record of a group that lists it
extern "C" void c37_which()
{
    bool cur = sym_choose(2, "cursor"); unsigned ng = 2 + sym_choose(2, "groups"), at = sym_choose(3, "at"), nm = sym_choose(4, "named"); if (at >= ng) sym_done(); uint16_t id[3]; ids3(id); uint32_t l = sym_u32("lang"), l2 = sym_u32("lang"); sym_assume(l != l2); resource_directory root; pe_resource_manager m(root);
    std::string im = image(cur, 3); m.add_resource(im, IT[cur], id[0], l); Group mine;
    for (unsigned i = 0; i < ng; i++) { Group g; g.hdr = sym_u16("hdr"); g.type = sym_u16("type"); bool named = (nm >> (i & 1)) & 1; g.t.push_back(rec(cur, id[1], 1)); if (i == at) { if (sym_choose(2, "last")) g.t.push_back(rec(cur, id[0], 3)); else g.t.insert(g.t.begin(), rec(cur, id[0], 3)); mine = g; } K k; k.named = named; k.id = 3 - i; k.name = std::wstring(1, L'a' + (wchar_t)(3 - i)); put(m, cur, k, l, bytes(cur, g)); if (i == 0 && at != 0) { g.t.push_back(rec(cur, id[0], 3)); put(m, cur, k, l2, bytes(cur, g)); } }
    std::string w = alone(cur, mine, mine.t[0].id == id[0] ? 0 : 1, im); sym_assert(eqs(single(m, cur, id[0], l), w) & eqs(singlei(m, cur, id[0], 0), w), "a single image gets the record of the group that lists it"); sym_reach("end");
}

// many images in a group, many groups
extern "C" void c37_large()
{
    bool cur = sym_choose(2, "cursor"); unsigned n = 300; resource_directory root; pe_resource_manager m(root); Group g; g.hdr = 0; g.type = 1; std::vector<std::string> v;
    for (unsigned i = 0; i < n; i++) { bool s = i == 0 || i == 255 || i == n - 1; Rec r; if (s) r = rec(cur, (uint16_t)(1000 - i), 2); else { r.w = 1; r.h = 2; r.a = 3; r.b = 4; r.cc = 5; r.rs = 0; r.size = 2; r.id = 1000 - i; } g.t.push_back(r); std::string d = s ? image(cur, 2) : std::string(cur ? 6 : 2, (char)i); v.push_back(d); m.add_resource(d, IT[cur], r.id, 1); }
    K k; k.named = false; k.id = 70000; put(m, cur, k, 1, bytes(cur, g)); std::string want = file(cur, g, v); sym_assert(eqs(bylang(m, cur, k, 1), want), "the file of 300 images"); sym_assert(eqs(single(m, cur, 1001 - n, 1), alone(cur, g, n - 1, v[n - 1])), "the last single image");
    std::string big = sym_str(8, "big"); big.resize(70000 + (cur ? 4 : 0), 'x'); m.add_resource(big, IT[cur], 2000, 1); Group b; b.hdr = 0; b.type = 1; b.t.push_back(rec(cur, 2000, 70000)); b.t.push_back(g.t[0]); std::vector<std::string> vb; vb.push_back(big); vb.push_back(v[0]); k.id = 5; put(m, cur, k, 1, bytes(cur, b)); std::string wb = file(cur, b, vb); sym_assert(eqs(bylang(m, cur, k, 1), wb), "the file of an image of more than 64 KB"); sym_reach("end");
}

// what stays of an entry of a type: present in a language with given data
static bool stays(const PV& v, PV::resource_type t, uint32_t id, uint32_t l, const std::string& d) { try { return eqs(v.get_resource_data_by_id(l, t, id).get_data(), d); } catch (const pe_exception&) { return false; } }
static bool gone(const PV& v, PV::resource_type t, uint32_t id, uint32_t l) { return THROWS(v.get_resource_data_by_id(l, t, id)); }
// removing a group: exactly its listed images in its language, also if some are listed twice or missing
extern "C" void c37_remove()
{
    bool cur = sym_choose(2, "cursor"), named = sym_choose(2, "named"); uint16_t id[3]; ids3(id); uint32_t l = sym_u32("lang"), l2 = sym_u32("lang"); sym_assume(l != l2); resource_directory root; pe_resource_manager m(root); W w(m); unsigned n = 1 + sym_choose(3, "n"), have = sym_choose(8, "have"), more = sym_choose(8, "more"), listed = 0; std::string im[3], im2[3]; Group g; g.hdr = 0; g.type = 1;
    for (unsigned i = 0; i < 3; i++) { im[i] = image(cur, 1); im2[i] = image(cur, 2); if (have >> i & 1) m.add_resource(im[i], IT[cur], id[i], l); if (more >> i & 1) m.add_resource(im2[i], IT[cur], id[i], l2); }
    for (unsigned i = 0; i < n; i++) { unsigned k = sym_choose(3, "which"); listed |= 1u << k; g.t.push_back(rec(cur, id[k], 1)); } K k; k.named = named; k.id = 7; k.name = std::wstring(1, L'n'); put(m, cur, k, l, bytes(cur, g)); bool second = sym_choose(2, "second"); if (second) put(m, cur, k, l2, bytes(cur, g)); m.add_resource(std::string("keep"), GT[cur], 8, l); m.add_resource(std::string("keep"), PV::resource_rcdata, id[0], l);
    bool r = cur ? (named ? w.remove_cursor_group(k.name, l) : w.remove_cursor_group(k.id, l)) : (named ? w.remove_icon_group(k.name, l) : w.remove_icon_group(k.id, l)); sym_assert(r, "the group is removed");
    for (unsigned i = 0; i < 3; i++) { if ((have >> i & 1) && !(listed >> i & 1)) sym_assert(stays(m, IT[cur], id[i], l, im[i]), "images of others stay"); else sym_assert(gone(m, IT[cur], id[i], l), "the group's images are removed"); if (more >> i & 1) sym_assert(stays(m, IT[cur], id[i], l2, im2[i]), "images of other languages stay"); }
    sym_assert(THROWS(named ? m.get_resource_data_by_name(l, GT[cur], k.name) : m.get_resource_data_by_id(l, GT[cur], k.id)), "the group is gone"); if (second) { std::string t = bytes(cur, g); sym_assert(eqs((named ? m.get_resource_data_by_name(l2, GT[cur], k.name) : m.get_resource_data_by_id(l2, GT[cur], k.id)).get_data(), t), "the group's other language stays"); } sym_assert(stays(m, GT[cur], 8, l, "keep") & stays(m, PV::resource_rcdata, id[0], l, "keep"), "other resources stay"); sym_reach("end");
}
