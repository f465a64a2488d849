// C35: resource trees are decoded exactly, whoever laid them out.
#include "foreign.h"
#include "pe_resources.h"
static std::wstring wname(unsigned n) { std::wstring s(n, 0); bool ok = true; for (unsigned i = 0; i < n; i++) { uint16_t c = sym_u16("name"); ok = ok & ((c < 0xd800) | (c >= 0xe000)); s[i] = c; } sym_assume(ok); return s; }
static bool weq(const std::wstring& a, const std::wstring& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
struct D; struct Ent { bool named, leaf; uint32_t id; int name, data, sub; };
struct Dir { uint32_t ch, ts; uint16_t mj, mn; std::vector<Ent> e; uint32_t at; };
struct Leaf { std::string bytes; uint32_t cp, entry_at, at, spare; };
struct Name { std::wstring s; uint32_t at; };
struct Tree { std::vector<Dir> d; std::vector<Leaf> l; std::vector<Name> n; };
static unsigned dir(Tree& t) { Dir d; d.ch = sym_u32("flags"); d.ts = sym_u32("stamp"); d.mj = sym_u16("major"); d.mn = sym_u16("minor"); d.at = 0; t.d.push_back(d); return t.d.size() - 1; }
static unsigned leaf(Tree& t, const std::string& s) { Leaf l; l.bytes = s; l.cp = sym_u32("codepage"); l.spare = sym_u32("reserved"); l.entry_at = l.at = 0; t.l.push_back(l); return t.l.size() - 1; }
static unsigned name(Tree& t, const std::wstring& s) { Name n; n.s = s; n.at = 0; t.n.push_back(n); return t.n.size() - 1; }
static Ent ent(int nm) { Ent e; e.named = nm >= 0; e.name = nm; e.id = 0; if (nm < 0) { e.id = sym_u32("id"); sym_assume(e.id < 0x80000000); } e.leaf = true; e.data = e.sub = -1; return e; }
static void add(Tree& t, unsigned d, int nm, int lf, int sub = -1) { Ent e = ent(nm); e.leaf = sub < 0; e.data = lf; e.sub = sub; t.d[d].e.push_back(e); }
// places everything and writes it; everything but the bytes of the data lies behind the root
static bool store(Foreign& g, Tree& t, unsigned how, bool big)
{
    Sizes n; for (size_t i = 0; i < t.d.size(); i++) n.push_back(16 + 8 * t.d[i].e.size()); for (size_t i = 0; i < t.n.size(); i++) n.push_back(2 + 2 * t.n[i].s.size()); for (size_t i = 0; i < t.l.size(); i++) n.push_back(16); for (size_t i = 0; i < t.l.size(); i++) n.push_back(t.l[i].bytes.size()); Sizes r = arrange(n, how); if (!big && !fits(n, r)) return false; uint32_t root = r[0]; size_t k = 0; for (size_t i = 0; i < n.size() - t.l.size(); i++) if (r[i] < root) { root = A0; } if (root != r[0]) return false;
    for (size_t i = 0; i < t.d.size(); i++) t.d[i].at = r[k++]; for (size_t i = 0; i < t.n.size(); i++) t.n[i].at = r[k++]; for (size_t i = 0; i < t.l.size(); i++) t.l[i].entry_at = r[k++]; for (size_t i = 0; i < t.l.size(); i++) t.l[i].at = r[k++];
    for (size_t i = 0; i < t.d.size(); i++) { const Dir& d = t.d[i]; unsigned nm = 0; for (size_t j = 0; j < d.e.size(); j++) nm += d.e[j].named; g.u32(d.at, d.ch); g.u32(d.at + 4, d.ts); g.u16(d.at + 8, d.mj); g.u16(d.at + 10, d.mn); g.u16(d.at + 12, nm); g.u16(d.at + 14, d.e.size() - nm); for (size_t j = 0; j < d.e.size(); j++) { const Ent& e = d.e[j]; g.u32(d.at + 16 + 8 * j, e.named ? 0x80000000u | (t.n[e.name].at - root) : e.id); g.u32(d.at + 20 + 8 * j, e.leaf ? t.l[e.data].entry_at - root : 0x80000000u | (t.d[e.sub].at - root)); } }
    for (size_t i = 0; i < t.n.size(); i++) { g.u16(t.n[i].at, t.n[i].s.size()); for (size_t j = 0; j < t.n[i].s.size(); j++) g.u16(t.n[i].at + 2 + 2 * j, (uint16_t)t.n[i].s[j]); }
    for (size_t i = 0; i < t.l.size(); i++) { Leaf& l = t.l[i]; if (l.bytes.empty() && sym_choose(2, "emptyplace")) l.at = B1; g.u32(l.entry_at, l.at); g.u32(l.entry_at + 4, l.bytes.size()); g.u32(l.entry_at + 8, l.cp); g.u32(l.entry_at + 12, l.spare); g.at(l.at, l.bytes); for (size_t j = 0; j < l.bytes.size(); j++) if (l.at + j >= g.end) l.bytes[j] = 0; }
    g.dir(2, root, sym_choose(2, "dirsize") ? 16 : 0x400); return true;
}
static void same(const Tree& t, unsigned i, const resource_directory& r)
{
    const Dir& d = t.d[i]; unsigned nm = 0; for (size_t j = 0; j < d.e.size(); j++) nm += d.e[j].named; sym_assert(r.get_characteristics() == d.ch && r.get_timestamp() == d.ts && r.get_major_version() == d.mj && r.get_minor_version() == d.mn, "fields of a directory"); sym_assert(r.get_number_of_named_entries() == nm && r.get_number_of_id_entries() == d.e.size() - nm, "numbers of entries"); const resource_directory::entry_list& l = r.get_entry_list(); sym_assert(l.size() == d.e.size(), "every entry"); if (l.size() != d.e.size()) return;
    for (size_t j = 0; j < l.size(); j++) { const Ent& e = d.e[j]; sym_assert(l[j].is_named() == e.named && l[j].includes_data() == e.leaf, "kind of an entry"); if (l[j].is_named() != e.named || l[j].includes_data() != e.leaf) return; if (e.named) sym_assert(weq(l[j].get_name(), t.n[e.name].s), "name"); else sym_assert(l[j].get_id() == e.id && l[j].get_name().empty(), "number"); if (e.leaf) { const Leaf& f = t.l[e.data]; sym_assert(eqs(l[j].get_data_entry().get_data(), f.bytes), "data"); sym_assert(l[j].get_data_entry().get_codepage() == f.cp, "code page"); } else same(t, e.sub, l[j].get_resource_directory()); }
}
static void check(Tree& t, bool big = false) { Foreign g(sym_choose(2, "pe64")); if (big) g.large(); unsigned how = big ? 0 : sym_choose(ARRANGE, "arrangement"); if (!store(g, t, how, big)) sym_done(); pe_base p = g.open(); same(t, 0, get_resources(p)); sym_reach(how == 5 ? "headers" : how == 4 ? "zeros" : "tree"); }
// a root with up to three entries of any kind, in any order
extern "C" void c35_root()
{
    static const unsigned NL[3] = { 0, 1, 3 }, DL[3] = { 0, 1, 7 }; Tree t; unsigned r = dir(t), n = sym_choose(4, "entries"), len = sym_choose(3, "length"); int a = -1; if (n) a = leaf(t, sym_str(DL[len], "bytes")); bool share = n > 1 && sym_choose(2, "shared"); for (unsigned i = 0; i < n; i++) { unsigned kind = sym_choose(3, "kind"); int nm = kind == 1 ? (share && t.n.size() ? 0 : (int)name(t, wname(NL[(i + len) % 3]))) : -1; if (kind == 2) { unsigned s = dir(t); add(t, r, nm, -1, s); } else add(t, r, nm, i == 0 || share ? a : (int)leaf(t, sym_str(3 * i, "bytes"))); } check(t);
}
// type, name, language
extern "C" void c35_three()
{
    Tree t; unsigned r = dir(t), a = dir(t), b = dir(t), c = dir(t); int ln = name(t, wname(1 + sym_choose(2, "length"))); unsigned k = sym_choose(8, "named"); int x = leaf(t, sym_str(4, "bytes")), y = leaf(t, sym_str(1, "bytes")); add(t, r, k & 1 ? ln : -1, -1, a); add(t, a, k & 2 ? ln : -1, -1, b); add(t, a, -1, -1, c); add(t, b, k & 4 ? ln : -1, x); add(t, b, -1, y); add(t, c, -1, y); check(t);
}
// subdirectories before their parents, data at a deeper and at a higher level of the same tree
extern "C" void c35_mixed() { Tree t; unsigned r = dir(t), n = 1 + sym_choose(5, "depth"), at = r; int x = leaf(t, sym_str(2, "bytes")); for (unsigned i = 0; i < n; i++) { unsigned s = dir(t); if (sym_choose(2, "before")) add(t, at, -1, x); add(t, at, -1, -1, s); if (sym_choose(2, "after")) add(t, at, -1, x); at = s; } add(t, at, -1, x); check(t); }
extern "C" void c35_many()
{
    static const unsigned N[3] = { 255, 256, 300 }; unsigned n = N[sym_choose(3, "number")], kind = sym_choose(3, "kind"); Tree t; unsigned r = dir(t); int x = leaf(t, sym_str(2, "bytes")); int nm = kind == 1 ? (int)name(t, wname(1)) : -1; for (unsigned i = 0; i < n; i++) { Ent e; e.named = false; e.name = -1; e.leaf = true; e.data = x; e.sub = -1; e.id = 0x1000 + i; if (i == 0 || i == 255 || i + 1 == n) { e.id = sym_u32("id"); sym_assume(e.id < 0x80000000); } if (kind == 1 && i % 2) { e.named = true; e.name = nm; e.id = 0; } if (kind == 2 && i % 64 == 63) { e.leaf = false; e.sub = dir(t); } t.d[r].e.push_back(e); } check(t, true);
}
extern "C" void c35_long() { static const unsigned N[5] = { 255, 256, 257, 4096, 12000 }; unsigned n = N[sym_choose(5, "length")]; Tree t; unsigned r = dir(t); std::wstring w = wname(1) + std::wstring(n - 2, L'n') + wname(1); std::string s = sym_str(1, "first") + std::string(n - 2, 'd') + sym_str(1, "last"); bool byname = sym_choose(2, "byname"); if (!byname) s.insert(s.size() - 1, 2 * n < 30000 ? n : 17, 'e'); int nm = byname ? (int)name(t, w) : -1; add(t, r, nm, leaf(t, byname ? sym_str(2, "bytes") : s)); check(t, true); }
// damaged trees
extern "C" void c35_bad()
{
    Foreign g(sym_choose(2, "pe64")); uint32_t root = A0, sub = 0x40, nm = 0x80, de = 0xa0, da = A0 + 0xc0, len = 4; unsigned how = sym_choose(9, "how"); bool bad = true; auto out = [&](uint32_t off, uint32_t n) -> bool { uint32_t a = A0 + off; return (a > B1 - n) | (a < H0) | ((a > H1 - n) & (a < A0)) | ((a > A1 - n) & (a < A1)); }; uint16_t cnt = 1, nl = 2;
    switch (how)
    {
    case 0: root = sym_u32("root"); sym_assume(out(root - A0, 16)); sym_assume((root >= H0)); break;
    case 1: sub = sym_u32("sub"); sym_assume((sub < 0x80000000) & out(sub, 16)); break;
    case 2: nm = sym_u32("name"); sym_assume((nm < 0x80000000) & out(nm, 2)); break;
    case 3: de = sym_u32("entry"); sym_assume((de < 0x80000000) & out(de, 16)); break;
    case 4: da = sym_u32("data"); sym_assume((da > B1 - 4) | ((da > H1 - 4) & (da < A0)) | ((da > A1 - 4) & (da < A1))); break;
    case 5: len = sym_u32("size"); sym_assume(len > A1 - A0 - 0xc0); break;
    case 6: sub = 0; break;                                                     // a directory that contains itself
    case 7: nm = 0x100; nl = sym_u16("length"); sym_assume(nl > (A1 - A0 - 0x102) / 2); break;
    default: bad = false; break;
    }
    std::string z(16, 0); put16(z, 12, cnt); put16(z, 14, 1); uint32_t at = A0; g.at(at, z); g.u32(at + 16, 0x80000000u | nm); g.u32(at + 20, 0x80000000u | sub); g.u32(at + 24, 5); g.u32(at + 28, de); std::string y(16, 0); g.at(at + 0x40, y); g.u16(at + 0x80, nl); g.u16(at + 0x100, nl); g.u32(at + 0xa0, da); g.u32(at + 0xa4, len); g.dir(2, root, 0x100); pe_base p = g.open(); bool th = THROWS(get_resources(p)); sym_assert(th == bad, "trees that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
extern "C" void c35_none() { Foreign g(sym_choose(2, "pe64")); g.dir(2, 0, sym_u32("size")); pe_base p = g.open(); resource_directory r = get_resources(p); sym_assert(r.get_entry_list().empty() && r.get_number_of_named_entries() == 0 && r.get_number_of_id_entries() == 0, "an image without resources has an empty tree"); sym_reach("none"); }
