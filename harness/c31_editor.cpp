// C31: the version information editor changes exactly what it is asked to.
#include "dir.h"
#include "version_info_editor.h"
#include <map>
#include <vector>
typedef std::wstring W;
static bool weq(const W& a, const W& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static bool same(const W& a, const W& b) { return sym_concretize(weq(a, b)); }
struct Prop { W name, value; };
struct Table { W key; std::vector<Prop> props; };
struct Ids { uint16_t lang, cp; };
struct Model { std::vector<Table> t; std::vector<Ids> tr; };
static uint32_t nib(wchar_t c) { return (uint32_t)sym_ite(c <= L'9', c - L'0', sym_ite(c <= L'F', c - L'A' + 10, c - L'a' + 10)); }
static Ids ids(const W& k) { uint32_t v = 0; for (int i = 0; i < 8; i++) v = v << 4 | nib(k[i]); Ids r = { (uint16_t)(v >> 16), (uint16_t)v }; return r; }
static bool eq(const Ids& a, const Ids& b) { return sym_concretize((a.lang == b.lang) & (a.cp == b.cp)); }
static int table(const Model& m, const W& k) { for (size_t i = 0; i < m.t.size(); i++) if (same(m.t[i].key, k)) return i; return -1; }
static bool less(const W& a, const W& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (sym_concretize(a[i] < b[i])) return true; if (sym_concretize(b[i] < a[i])) return false; } return a.size() < b.size(); }
static const W DEF(L"041904b0");
static int pick(const Model& m, const W& k) { if (!k.empty()) return table(m, k); int d = table(m, DEF); if (d >= 0 || m.t.empty()) return d; d = 0; for (size_t i = 1; i < m.t.size(); i++) if (less(m.t[i].key, m.t[d].key)) d = i; return d; }
static const W* prop(const Model& m, const W& n, const W& k) { int i = pick(m, k); if (i < 0) return 0; for (size_t j = 0; j < m.t[i].props.size(); j++) if (same(m.t[i].props[j].name, n)) return &m.t[i].props[j].value; return 0; }
static void addtr(Model& m, const Ids& t) { for (size_t i = 0; i < m.tr.size(); i++) if (eq(m.tr[i], t)) return; m.tr.push_back(t); }
static void set(Model& m, const W& n, const W& v, const W& k) { int i = pick(m, k); if (i < 0) { Table t; t.key = k.empty() ? DEF : k; i = m.t.size(); m.t.push_back(t); addtr(m, ids(t.key)); } for (size_t j = 0; j < m.t[i].props.size(); j++) if (same(m.t[i].props[j].name, n)) { m.t[i].props[j].value = v; return; } Prop p; p.name = n; p.value = v; m.t[i].props.push_back(p); }
static void remove(Model& m, const Ids& t) { for (size_t i = 0; i < m.t.size();) if (eq(ids(m.t[i].key), t)) m.t.erase(m.t.begin() + i); else i++; for (size_t i = 0; i < m.tr.size();) if (eq(m.tr[i], t)) m.tr.erase(m.tr.begin() + i); else i++; }
static void verify(const Model& m, const lang_string_values_map& s, const translation_values_map& tr)
{
    sym_assert(s.size() == m.t.size(), "as many string tables as asked for"); sym_assert(tr.size() == m.tr.size(), "as many translations as asked for");
    for (size_t i = 0; i < m.t.size(); i++) { lang_string_values_map::const_iterator it = s.find(m.t[i].key); sym_assert(it != s.end(), "string table exists"); if (it == s.end()) return; sym_assert(it->second.size() == m.t[i].props.size(), "as many properties as asked for"); for (size_t j = 0; j < m.t[i].props.size(); j++) { string_values_map::const_iterator p = it->second.find(m.t[i].props[j].name); sym_assert(p != it->second.end() && weq(p->second, m.t[i].props[j].value), "property value"); } }
    std::vector<bool> used(m.tr.size()); for (translation_values_map::const_iterator it = tr.begin(); it != tr.end(); ++it) { Ids t = { it->first, it->second }; bool f = false; for (size_t i = 0; i < m.tr.size() && !f; i++) if (!used[i] && eq(m.tr[i], t)) used[i] = f = true; sym_assert(f, "translation expected"); }
}
static void query(const Model& m, const version_info_viewer& v, const W& n, const W& k)
{
    const W* p = prop(m, n, k); W g = v.get_property(n, k); sym_assert(p ? weq(g, *p) : g.empty(), "the viewer reports the property"); W h; bool th = THROWS(h = v.get_property(n, k, true)); sym_assert(th == !p, "absent properties are reported"); if (!th) sym_assert(weq(h, g), "the viewer reports the property");
}
// translation names: two fixed ones (the default and its other spelling) and one with arbitrary hexadecimal digits in two places
static W tname(unsigned n) { switch (n) { case 0: return W(); case 1: return DEF; case 2: return L"041904B0"; case 3: return L"000004e4"; default: { W w(L"041904b0"); for (int i = 0; i < 2; i++) { uint32_t c = sym_u8("digit"); sym_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); w[i ? 6 : 1] = c; } return w; } } }
static W wc(const char* n, size_t k = 1) { W w(k, 0); for (size_t i = 0; i < k; i++) w[i] = (wchar_t)sym_u32(n); return w; }
static void run(unsigned init, unsigned steps, bool sym, bool small = false)
{
    Model m; lang_string_values_map s; translation_values_map tr; static const wchar_t* K[3] = { L"041904b0", L"000004e4", L"041904B0" }; W name = wc("name");
    for (unsigned i = 0; i < 3; i++) if (init >> i & 1) { Table t; t.key = K[i]; Prop p; p.name = i ? W(L"x") : W(L"CompanyName"); p.value = wc("value"); t.props.push_back(p); m.t.push_back(t); s[t.key][p.name] = p.value; if (!(init & 8)) { Ids d = ids(t.key); bool had = false; for (size_t j = 0; j < m.tr.size(); j++) had = had || eq(m.tr[j], d); if (!had) { m.tr.push_back(d); tr.insert(std::make_pair(d.lang, d.cp)); } } }
    if (init & 8) for (int i = 0; i < 2; i++) { Ids d = { 0x419, (uint16_t)(0x4b0 + (i ? sym_choose(2, "cp") : 0)) }; m.tr.push_back(d); tr.insert(std::make_pair(d.lang, d.cp)); }
    version_info_editor e(s, tr);
    for (unsigned i = 0; i < steps; i++) {
        unsigned op = sym_choose(5, "op"); if (op == 2 || op == 4) { Ids d; d.lang = sym ? sym_u16("lang") : sym_choose(2, "lang") ? 0x419 : 0; d.cp = sym ? sym_u16("cp") : sym_choose(2, "cp") ? 0x4b0 : 0x4e4; if (op == 2) { e.add_translation(d.lang, d.cp); addtr(m, d); } else { e.remove_translation(d.lang, d.cp); remove(m, d); } }
        else { W k = tname((op ? 1 : 0) + sym_choose((sym ? 5 : 4) - (op ? 1 : 0), "translation")); if (op == 1) { e.add_translation(k); addtr(m, ids(k)); } else if (op == 3) { e.remove_translation(k); remove(m, ids(k)); } else { W n = small || sym_choose(2, "prop") ? name : W(L"CompanyName"), v = wc("newvalue", small ? 1 : sym_choose(3, "len")); e.set_property(n, v, k); set(m, n, v, k); } }
    }
    verify(m, s, tr); W q = tname(sym_choose(4, "query")); query(m, e, sym_choose(2, "queryprop") ? name : W(L"CompanyName"), q); std::vector<W> l = e.get_translation_list(); sym_assert(l.size() == m.tr.size(), "every translation is listed"); size_t i = 0; for (translation_values_map::const_iterator it = tr.begin(); it != tr.end() && i < l.size(); ++it, i++) { Ids d = { it->first, it->second }; bool hex = l[i].size() == 8; if (hex) { Ids g = ids(l[i]); for (int j = 0; j < 8; j++) hex = hex & (((l[i][j] >= L'0') & (l[i][j] <= L'9')) | ((l[i][j] >= L'a') & (l[i][j] <= L'f'))); hex = hex & (g.lang == d.lang) & (g.cp == d.cp); } sym_assert(hex, "translations are listed as eight hexadecimal digits"); } sym_reach("edited");
}
extern "C" void c31_one() { run(sym_choose(16, "init"), 1, true); }
extern "C" void c31_two() { run(sym_choose(16, "init"), 2, false); }
extern "C" void c31_three() { run(sym_choose(2, "init") ? 9 : 0, 3, false, true); }
// named properties
extern "C" void c31_named()
{
    lang_string_values_map s; translation_values_map tr; version_info_editor e(s, tr); static const wchar_t* N[8] = { L"CompanyName", L"FileDescription", L"FileVersion", L"InternalName", L"LegalCopyright", L"OriginalFilename", L"ProductName", L"ProductVersion" }; W v[8]; bool all = sym_choose(2, "all"); W k = tname(sym_choose(3, "translation")); unsigned one = sym_choose(8, "property");
    for (int i = 0; i < 8; i++) { v[i] = wc("value"); if (all) e.set_property(N[i], v[i], k); else v[i].clear(); } v[one] = wc("new", 2);
    switch (one) { case 0: e.set_company_name(v[0], k); break; case 1: e.set_file_description(v[1], k); break; case 2: e.set_file_version(v[2], k); break; case 3: e.set_internal_name(v[3], k); break; case 4: e.set_legal_copyright(v[4], k); break; case 5: e.set_original_filename(v[5], k); break; case 6: e.set_product_name(v[6], k); break; default: e.set_product_version(v[7], k); }
    W g[8] = { e.get_company_name(k), e.get_file_description(k), e.get_file_version(k), e.get_internal_name(k), e.get_legal_copyright(k), e.get_original_filename(k), e.get_product_name(k), e.get_product_version(k) };
    for (int i = 0; i < 8; i++) { sym_assert(weq(g[i], v[i]), "named properties are set and reported, the others are unchanged"); sym_assert(weq(e.get_property(N[i], k), v[i]), "named properties have their documented names"); sym_assert(THROWS(e.get_property(N[i], k, true)) == (!all && (unsigned)i != one), "absent properties are reported"); } sym_assert(s.size() == 1 && tr.size() == 1, "one translation"); sym_reach("named");
}
// listing and parsing translations with any ids
extern "C" void c31_ids() { lang_string_values_map s; translation_values_map tr; version_info_editor e(s, tr); static const uint16_t V[4] = { 0, 9, 0x4b0, 0xffff }; bool which = sym_choose(2, "which"); uint16_t y = sym_u16("id"), x = V[sym_choose(4, "other")]; uint16_t l = which ? x : y, c = which ? y : x; e.add_translation(l, c); sym_assert(tr.size() == 1 && tr.begin()->first == l && tr.begin()->second == c, "translation added"); std::vector<W> n = e.get_translation_list(); sym_assert(n.size() == 1 && n[0].size() == 8, "listed"); version_info_viewer::translation_pair p = version_info_viewer::translation_from_string(n[0]); sym_assert(p.first == l && p.second == c, "the listed name denotes the translation"); e.add_translation(n[0]); sym_assert(tr.size() == 1, "nothing is listed twice"); e.set_property(L"x", L"y", n[0]); sym_assert(tr.size() == 1 && s.size() == 1, "the table belongs to the translation"); e.remove_translation(n[0]); sym_assert(tr.empty() && s.empty(), "the translation is removed"); sym_reach("ids"); }
extern "C" void c31_parse() { W w(L"00000000"); unsigned at = sym_choose(6, "at"); for (int i = 0; i < 3; i++) { uint32_t c = sym_u8("digit"); sym_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); w[at + i] = c; } version_info_viewer::translation_pair p = version_info_viewer::translation_from_string(w); Ids d = ids(w); sym_assert(p.first == d.lang && p.second == d.cp, "translation names denote their ids"); sym_reach("parsed"); }
// arguments may be parts of the edited maps
extern "C" void c31_alias() { lang_string_values_map s; translation_values_map tr; version_info_editor e(s, tr); W v = wc("value", 2), k = L"000004e4"; e.set_property(L"a", v, k); e.set_property(L"a", L"z", DEF); const W& key = s.begin()->first; unsigned op = sym_choose(3, "op"); if (op == 0) { e.set_property(L"b", s.begin()->second[L"a"], key); sym_assert(weq(e.get_property(L"b", k), v) && weq(e.get_property(L"a", k), v), "value copied"); } else if (op == 1) { e.remove_translation(key); sym_assert(s.size() == 1 && s.begin()->first == DEF && tr.size() == 1, "removed"); } else { e.set_property(s.begin()->second.begin()->first, s.begin()->second[L"a"], key); sym_assert(weq(e.get_property(L"a", k), v), "value kept"); } sym_reach("alias"); }
