// C36: version information blocks are decoded exactly, whoever wrote them.
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_version_info_reader.h"
#include "version_info_viewer.h"
typedef std::wstring W;
static bool weq(const W& a, const W& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static W text(size_t n, const char* nm) { W w(n, 0); for (size_t i = 0; i < n; i++) { uint16_t c = sym_u16(nm); sym_assume(((c & 0xf800) != 0xd800) & (c != 0)); w[i] = c; } return w; }
static void p16(std::string& s, uint32_t v) { s.push_back((char)v); s.push_back((char)(v >> 8)); }
static void p32(std::string& s, uint32_t v) { p16(s, v & 0xffff); p16(s, v >> 16); }
static bool ANYPAD = true; // padding may hold anything
static void pad(std::string& s) { while (s.size() & 3) s.push_back(ANYPAD ? (char)sym_u8("pad") : 0); }
static std::string wide(const W& w) { std::string s; for (size_t i = 0; i < w.size(); i++) p16(s, (uint16_t)w[i]); return s; }
// a block; all blocks start on four bytes, so what it holds is aligned alike
static std::string block(const W& key, uint32_t vlen, const std::string& value, const std::vector<std::string>& kids, bool padded = false)
{
    std::string s; p16(s, 0); p16(s, vlen); p16(s, sym_u16("kind")); s += wide(key); p16(s, 0); if (value.size() || kids.size()) { pad(s); s += value; } for (size_t i = 0; i < kids.size(); i++) { pad(s); s += kids[i]; } if (padded) pad(s); put16(s, 0, s.size()); return s;
}
typedef std::vector<std::string> Kids;
struct Str { W key, value; }; struct Tab { W key; std::vector<Str> s; };
static std::string tables(const std::vector<Tab>& t, bool padded) { Kids k; for (size_t i = 0; i < t.size(); i++) { Kids q; for (size_t j = 0; j < t[i].s.size(); j++) { const W& v = t[i].s[j].value; unsigned form = ANYPAD ? sym_choose(v.empty() ? 3 : 4, "form") : 1; W st = v; if (form == 1) st += W(1, 0); if (form == 2) st += W(2, 0); if (form == 3) st = v + W(3, 0); q.push_back(block(t[i].s[j].key, st.size(), wide(st), Kids(), padded)); } k.push_back(block(t[i].key, 0, "", q, padded)); } return block(L"StringFileInfo", 0, "", k, padded); }
static std::string translations(const std::vector<uint16_t>& t, bool padded, bool other) { std::string v; for (size_t i = 0; i < t.size(); i++) p16(v, t[i]); Kids k; if (other) k.push_back(block(L"Other", 3, "abc", Kids(), padded)); k.push_back(block(L"Translation", v.size(), v, Kids(), padded)); return block(L"VarFileInfo", 0, "", k, padded); }
static void check(const std::string& data, bool fixed, const uint32_t* f, const std::vector<Tab>& t, const std::vector<uint16_t>& tr)
{
    resource_directory root; pe_resource_manager m(root); unsigned way = ANYPAD ? sym_choose(3, "way") : 0; if (way) m.add_resource("other", pe_resource_viewer::resource_version, 1, 5); m.add_resource(data, pe_resource_viewer::resource_version, 1, 9); resource_version_info_reader r(m); lang_string_values_map sm; translation_values_map tm; file_version_info i = way == 1 ? r.get_version_info_by_lang(sm, tm, 9) : way == 2 ? r.get_version_info(sm, tm, 1) : r.get_version_info(sm, tm); uint32_t z[13] = { 0 }; if (!fixed) f = z;
    sym_assert((i.get_file_version_ms() == f[2]) & (i.get_file_version_ls() == f[3]) & (i.get_product_version_ms() == f[4]) & (i.get_product_version_ls() == f[5]) & (i.get_file_flags() == f[7]) & (i.get_file_os_raw() == f[8]) & (i.get_file_type_raw() == f[9]) & (i.get_file_subtype() == f[10]) & (i.get_file_date_ms() == f[11]) & (i.get_file_date_ls() == f[12]), "fixed fields");
    sym_assert(sm.size() == t.size(), "every string table"); for (size_t a = 0; a < t.size(); a++) { bool found = false; for (lang_string_values_map::const_iterator x = sm.begin(); x != sm.end(); ++x) { if (x->first.size() != t[a].key.size() || !sym_concretize(weq(x->first, t[a].key))) continue; found = true; sym_assert(x->second.size() == t[a].s.size(), "every string"); for (size_t b = 0; b < t[a].s.size(); b++) { bool f2 = false; for (string_values_map::const_iterator y = x->second.begin(); y != x->second.end(); ++y) if (y->first.size() == t[a].s[b].key.size() && sym_concretize(weq(y->first, t[a].s[b].key))) { f2 = true; sym_assert(weq(y->second, t[a].s[b].value), "value of a string"); } sym_assert(f2, "name of a string"); } } sym_assert(found, "name of a string table"); }
    size_t n = 0; for (size_t a = 0; a + 1 < tr.size(); a += 2) { bool dup = false; for (size_t b = 0; b < a; b += 2) dup = dup | ((tr[a] == tr[b]) & (tr[a + 1] == tr[b + 1])); (void)dup; bool found = false; for (translation_values_map::const_iterator x = tm.begin(); x != tm.end(); ++x) found = found | ((x->first == tr[a]) & (x->second == tr[a + 1])); sym_assert(found, "every translation"); n++; } sym_assert(tm.size() == n, "no other translations"); sym_reach("version");
}
static std::string whole(bool fixed, uint32_t* f, const Kids& kids, bool padded, unsigned behind)
{
    std::string v; if (fixed) { for (int i = 0; i < 13; i++) { f[i] = i == 0 ? 0xfeef04bd : i == 1 ? 0x10000 : sym_u32("fixed"); p32(v, f[i]); } } std::string s = block(L"VS_VERSION_INFO", v.size(), v, kids, padded); s.append(behind, (char)0xd1); while (s.size() < 40 && !fixed && kids.empty()) s.push_back(0); return s;
}
// any order and number of parts
extern "C" void c36_parts()
{
    unsigned parts = sym_choose(6, "parts"), behind = sym_choose(2, "behind"); bool fixed = sym_choose(2, "fixed"), padded = sym_choose(2, "padded"); std::vector<Tab> a(1), b(1), all; std::vector<uint16_t> t; Kids k; bool other = sym_choose(2, "other"); a[0].key = text(2, "table"); a[0].s.resize(1); a[0].s[0].key = text(1, "key"); a[0].s[0].value = text(1, "value"); b[0].key = text(3, "table"); t.push_back(sym_u16("language")); t.push_back(sym_u16("codepage"));
    std::string x = tables(a, padded), y = translations(t, padded, other); switch (parts) { case 0: k.push_back(x); k.push_back(y); all = a; break; case 1: k.push_back(y); k.push_back(x); all = a; break; case 2: k.push_back(x); all = a; t.clear(); break; case 3: k.push_back(y); break; case 4: t.clear(); break; default: k.push_back(x); k.push_back(y); k.push_back(tables(b, padded)); all = a; all.push_back(b[0]); break; }
    uint32_t f[13]; check(whole(fixed, f, k, padded, behind * 6), fixed, f, all, t);
}
// tables and strings of every shape
extern "C" void c36_strings()
{
    unsigned nt = sym_choose(3, "tables"); bool padded = sym_choose(2, "padded"); std::vector<Tab> t(nt); unsigned q = 0; for (unsigned i = 0; i < nt; i++) { t[i].key = text(1 + i, "table"); unsigned ns = sym_choose(3, "strings"); t[i].s.resize(ns); for (unsigned j = 0; j < ns; j++, q++) { t[i].s[j].key = text(1 + j, "key"); t[i].s[j].value = text(q % 2 ? 3 : sym_choose(2, "length"), "value"); } } uint32_t f[13]; Kids k(1, tables(t, padded)); check(whole(true, f, k, padded, 0), true, f, t, std::vector<uint16_t>());
}
extern "C" void c36_translations() { unsigned n = sym_choose(4, "number"); std::vector<uint16_t> t; for (unsigned i = 0; i < n; i++) { t.push_back(sym_u16("language")); t.push_back(sym_u16("codepage")); for (unsigned j = 0; j < i; j++) sym_assume((t[2 * j] != t[2 * i]) | (t[2 * j + 1] != t[2 * i + 1])); } uint32_t f[13]; Kids k(1, translations(t, sym_choose(2, "padded"), sym_choose(2, "other"))); check(whole(true, f, k, false, 0), true, f, std::vector<Tab>(), t); }
extern "C" void c36_many()
{
    ANYPAD = false; static const unsigned N[3] = { 255, 256, 300 }; unsigned n = N[sym_choose(3, "number")], kind = sym_choose(3, "kind"); std::vector<Tab> t; std::vector<uint16_t> tr; if (kind == 0) { t.resize(1); t[0].key = L"040904b0"; t[0].s.resize(n); for (unsigned j = 0; j < n; j++) { t[0].s[j].key = W(1, 0x100 + j); t[0].s[j].value = j == 0 || j == 255 || j + 1 == n ? text(2, "value") : W(j % 4, L'v'); } } if (kind == 1) { t.resize(n); for (unsigned j = 0; j < n; j++) { t[j].key = W(1, 0x300 - j); t[j].s.resize(1); t[j].s[0].key = L"k"; t[j].s[0].value = j == 0 || j == 255 || j + 1 == n ? text(2, "value") : W(j % 4, L'v'); } } if (kind == 2) for (unsigned j = 0; j < n; j++) { tr.push_back((uint16_t)(j * 3)); tr.push_back((uint16_t)(j ^ 0x5aa5)); }
    uint32_t f[13]; Kids k; k.push_back(kind == 2 ? translations(tr, false, false) : tables(t, false)); check(whole(true, f, k, false, 0), true, f, t, tr);
}
// blocks that are no version information
extern "C" void c36_foreign()
{
    unsigned how = sym_choose(6, "how"); bool bad = true; ANYPAD = false; uint32_t f[13]; std::vector<Tab> t(1); t[0].key = L"t"; t[0].s.resize(1); t[0].s[0].key = L"k"; t[0].s[0].value = L"v"; Kids k(1, tables(t, false)); std::string s = whole(true, f, k, false, 0);
    switch (how)
    {
    case 0: { uint32_t v = sym_u32("signature"); sym_assume(v != 0xfeef04bd); put32(s, 40, v); break; }
    case 1: { uint32_t v = sym_u32("structure"); sym_assume(v != 0x10000); put32(s, 44, v); break; }
    case 2: { unsigned i = sym_choose(16, "letter"); uint16_t v = sym_u16("character"); sym_assume(v != get16(s, 6 + 2 * i)); put16(s, 6 + 2 * i, v); break; }
    case 3: { unsigned i = sym_choose(14, "letter"); uint16_t v = sym_u16("character"); sym_assume(v != get16(s, 98 + 2 * i)); put16(s, 98 + 2 * i, v); break; } // neither StringFileInfo nor VarFileInfo
    case 4: s.resize(sym_choose(92, "cut")); break;
    default: bad = false; break;
    }
    resource_directory root; pe_resource_manager m(root); m.add_resource(s, pe_resource_viewer::resource_version, 1, 9); resource_version_info_reader r(m); lang_string_values_map sm; translation_values_map tm; bool th = THROWS(r.get_version_info(sm, tm)); sym_assert(th == bad, "other data is refused"); sym_reach(bad ? "refused" : "sound");
}
