// C24: version information round-trips.
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_version_info_reader.h"
#include "resource_version_info_writer.h"
#include <map>
#include <vector>
typedef std::wstring W;
static bool weq(const W& a, const W& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static uint16_t g16(const std::string& s, size_t o) { return (uint8_t)s[o] | (uint8_t)s[o + 1] << 8; }
static uint32_t g32(const std::string& s, size_t o) { return g16(s, o) | (uint32_t)g16(s, o + 2) << 16; }
// n representable characters; none of them NUL, or only the last one not NUL
static W text(size_t n, bool key, const char* nm) { W w(n, 0); for (size_t i = 0; i < n; i++) { uint16_t c = sym_u16(nm); sym_assume((c & 0xf800) != 0xd800); if (key || i + 1 == n) sym_assume(c != 0); w[i] = c; } return w; }
struct Info { uint32_t v[10]; };
static file_version_info mk(const Info& i) { file_version_info f; f.set_file_version_ms(i.v[0]); f.set_file_version_ls(i.v[1]); f.set_product_version_ms(i.v[2]); f.set_product_version_ls(i.v[3]); f.set_file_flags(i.v[4]); f.set_file_os_raw(i.v[5]); f.set_file_type_raw(i.v[6]); f.set_file_subtype(i.v[7]); f.set_file_date_ms(i.v[8]); f.set_file_date_ls(i.v[9]); return f; }
static bool is(const file_version_info& f, const Info& i) { return (f.get_file_version_ms() == i.v[0]) & (f.get_file_version_ls() == i.v[1]) & (f.get_product_version_ms() == i.v[2]) & (f.get_product_version_ls() == i.v[3]) & (f.get_file_flags() == i.v[4]) & (f.get_file_os_raw() == i.v[5]) & (f.get_file_type_raw() == i.v[6]) & (f.get_file_subtype() == i.v[7]) & (f.get_file_date_ms() == i.v[8]) & (f.get_file_date_ls() == i.v[9]); }
static Info anyinfo() { Info i; for (int k = 0; k < 10; k++) i.v[k] = sym_u32("info"); return i; }
// ---- strict structure check of a written block; everything but texts is concrete in it
struct Blk { uint32_t at, end, val, vlen, child; uint16_t type; W key; };
static bool blk(const std::string& s, uint32_t at, uint32_t lim, Blk& b)
{
    if (at & 3 || at + 6 > lim || lim > s.size()) return false; uint32_t len = (uint32_t)sym_concretize(g16(s, at)), vl = (uint32_t)sym_concretize(g16(s, at + 2)); b.at = at; b.end = at + len; b.type = (uint16_t)sym_concretize(g16(s, at + 4)); b.vlen = vl; if (b.end > lim || b.type > 1) return false;
    uint32_t p = at + 6; b.key.clear(); for (;; p += 2) { if (p + 2 > b.end) return false; uint16_t c = g16(s, p); if (sym_concretize(c == 0)) break; b.key.push_back(c); } p += 2; p = (p + 3) & ~3u; b.val = p; b.child = (p + vl * (b.type ? 2 : 1) + 3) & ~3u; return p + vl * (b.type ? 2 : 1) <= b.end || (vl == 0 && p <= lim);
}
#define BLK(b, s, at, lim) do { bool r_ = blk(s, at, lim, b); sym_assert(r_, "every block lies in its parent and has consistent lengths"); if (!r_) return; } while (0)
static void structure(const std::string& s, const Info& fi, const lang_string_values_map& m, const translation_values_map& tr)
{
    Blk root; BLK(root, s, 0, s.size()); sym_assert(root.end == s.size() && root.type == 0 && root.vlen == 52 && weq(root.key, L"VS_VERSION_INFO"), "root block"); uint32_t v = root.val;
    sym_assert((g32(s, v) == 0xfeef04bd) & (g32(s, v + 4) == 0x10000) & (g32(s, v + 8) == fi.v[0]) & (g32(s, v + 12) == fi.v[1]) & (g32(s, v + 16) == fi.v[2]) & (g32(s, v + 20) == fi.v[3]) & (g32(s, v + 28) == fi.v[4]) & (g32(s, v + 32) == fi.v[5]) & (g32(s, v + 36) == fi.v[6]) & (g32(s, v + 40) == fi.v[7]) & (g32(s, v + 44) == fi.v[8]) & (g32(s, v + 48) == fi.v[9]), "fixed file information");
    uint32_t at = root.child; bool gs = false, gt = false; size_t nt = 0;
    while (at < root.end) {
        Blk f; BLK(f, s, at, root.end); at = (f.end + 3) & ~3u; sym_assert(f.vlen == 0, "no value"); if (f.key.size() == 14) { sym_assert(!gs && weq(f.key, L"StringFileInfo"), "string file info"); gs = true; lang_string_values_map::const_iterator t = m.begin(); uint32_t p = f.child; for (; p < f.end; ++t) { sym_assert(t != m.end(), "no more string tables than asked for"); if (t == m.end()) return; Blk st; BLK(st, s, p, f.end); p = (st.end + 3) & ~3u; sym_assert(st.vlen == 0 && weq(st.key, t->first), "string table"); string_values_map::const_iterator w = t->second.begin(); uint32_t q = st.child; for (; q < st.end; ++w) { sym_assert(w != t->second.end(), "no more strings than asked for"); if (w == t->second.end()) return; Blk b; BLK(b, s, q, st.end); q = (b.end + 3) & ~3u; W val; for (uint32_t k = 0; k < b.vlen; k++) val.push_back(g16(s, b.val + 2 * k)); sym_assert(b.type == 1 && weq(b.key, w->first) && weq(val, w->second + W(1, 0)) && (b.end == b.val + 2 * b.vlen), "string"); } sym_assert(w == t->second.end(), "all strings are written"); } sym_assert(t == m.end(), "all string tables are written"); }
        else { sym_assert(!gt && weq(f.key, L"VarFileInfo"), "variable file info"); gt = true; uint32_t p = f.child; Blk b; BLK(b, s, p, f.end); sym_assert(((b.end + 3) & ~3u) >= f.end && weq(b.key, L"Translation") && b.type == 0 && b.vlen == 4 * tr.size() && b.end == b.val + b.vlen, "translation block"); uint32_t q = b.val; for (translation_values_map::const_iterator it = tr.begin(); it != tr.end(); ++it, q += 4) sym_assert((g16(s, q) == it->first) & (g16(s, q + 2) == it->second), "translations"); nt++; }
    }
    sym_assert(gs == !m.empty() && gt == !tr.empty(), "all parts are written");
}
static void same(const lang_string_values_map& a, const lang_string_values_map& b) { sym_assert(a.size() == b.size(), "all string tables are read back"); if (a.size() != b.size()) return; lang_string_values_map::const_iterator j = b.begin(); for (lang_string_values_map::const_iterator i = a.begin(); i != a.end(); ++i, ++j) { sym_assert(weq(i->first, j->first) && i->second.size() == j->second.size(), "string tables are read back"); if (i->second.size() != j->second.size()) return; string_values_map::const_iterator y = j->second.begin(); for (string_values_map::const_iterator x = i->second.begin(); x != i->second.end(); ++x, ++y) { sym_assert(weq(x->first, y->first), "string names are read back"); sym_assert(weq(x->second, y->second), "strings are read back"); } } }
static void trip(const Info& fi, const lang_string_values_map& m, const translation_values_map& tr, bool deep)
{
    resource_directory root; pe_resource_manager mg(root); uint32_t lang = sym_u32("lang"), cp = sym_u32("codepage"), ts = sym_u32("timestamp"); resource_version_info_writer w(mg); resource_version_info_reader r(mg); unsigned before = deep ? sym_choose(3, "before") : 0; uint32_t other = lang ^ 1; Info old = fi; old.v[0] ^= 5;
    if (before) { translation_values_map t; t.insert(std::make_pair(7, 7)); w.set_version_info(mk(old), lang_string_values_map(), t, before == 1 ? lang : other, 1, 2); }
    w.set_version_info(mk(fi), m, tr, lang, cp, ts); resource_data_info d = mg.get_resource_data_by_id(lang, pe_resource_viewer::resource_version, 1); sym_assert(d.get_codepage() == cp, "code page is stored"); structure(d.get_data(), fi, m, tr);
    lang_string_values_map m2; translation_values_map t2; file_version_info f = r.get_version_info_by_lang(m2, t2, lang); sym_assert(is(f, fi), "file information is read back"); same(m, m2); sym_assert(t2.size() == tr.size(), "all translations are read back"); if (t2.size() == tr.size()) { translation_values_map::const_iterator j = t2.begin(); for (translation_values_map::const_iterator i = tr.begin(); i != tr.end(); ++i, ++j) sym_assert((i->first == j->first) & (i->second == j->second), "translations are read back"); }
    if (deep) {
        lang_string_values_map m3; translation_values_map t3; if (before != 2) { f = r.get_version_info(m3, t3); sym_assert(is(f, fi), "the only version information has index 0"); same(m, m3); sym_assert(THROWS(r.get_version_info(m3, t3, 1)), "absent indexes are refused"); } else { f = r.get_version_info_by_lang(m3, t3, other); sym_assert(is(f, old) && m3.empty() && t3.size() == 1, "other languages are kept"); }
        sym_assert(w.remove_version_info(lang), "removal succeeds"); sym_assert(THROWS(r.get_version_info_by_lang(m3, t3, lang)), "removed version information is gone"); if (before == 2) sym_assert(!THROWS(r.get_version_info_by_lang(m3, t3, other)), "other languages are kept by removal"); sym_assert(!w.remove_version_info(lang), "removing twice is reported");
    }
    sym_reach("version");
}
static string_values_map strs(unsigned n, unsigned maxk, unsigned maxv) { string_values_map r; for (unsigned i = 0; i < n; i++) { W k = text(1 + sym_choose(maxk, "keylen"), true, "key"); W v = text(sym_choose(maxv + 1, "len"), false, "value"); r[k] = v; } return r; }
extern "C" void c24_fixed() { Info i = anyinfo(); trip(i, lang_string_values_map(), translation_values_map(), true); }
extern "C" void c24_onetable() { Info i = anyinfo(); lang_string_values_map m; m[text(sym_choose(3, "tablekey"), true, "tkey")] = strs(sym_choose(2, "strings"), 3, 4); translation_values_map t; if (sym_choose(2, "translation")) t.insert(std::make_pair(1, 2)); trip(i, m, t, false); }
extern "C" void c24_strings() { Info i = { { 0 } }; lang_string_values_map m; m[L"041904b0"] = strs(2, 2, 2); trip(i, m, translation_values_map(), false); }
extern "C" void c24_tables() { Info i = { { 0 } }; lang_string_values_map m; for (int k = 0; k < 2; k++) { W key = text(1 + sym_choose(2, "tablekey"), true, "tkey"); m[key] = strs(sym_choose(2, "strings"), 1, 2); } trip(i, m, translation_values_map(), false); }
extern "C" void c24_translations() { Info i = anyinfo(); translation_values_map t; unsigned n = sym_choose(4, "n"); for (unsigned k = 0; k < n; k++) { uint16_t l = sym_u16("tlang"), c = sym_u16("tcp"); t.insert(std::make_pair(l, c)); } trip(i, lang_string_values_map(), t, sym_choose(2, "deep")); }
// total length around the 16-bit limit; more than one table contributes
extern "C" void c24_limit() { Info i = { { 0 } }; lang_string_values_map m; unsigned two = sym_choose(3, "tables"), d = sym_choose(7, "delta"); m[L"041904b0"][L"a"] = L"xy"; if (two == 1) m[L"b"][L"c"] = W(0x3000, L'y'); if (two == 2) m[L"041904b0"][L"c"] = W(0x3000, L'y'); uint32_t base; { resource_directory q; pe_resource_manager mg(q); resource_version_info_writer w(mg); w.set_version_info(mk(i), m, translation_values_map(), 1); base = mg.get_resource_data_by_id(1, pe_resource_viewer::resource_version, 1).get_data().size(); } uint32_t grow = (65536 - base) / 2 - 4 + d; m[L"041904b0"][L"a"] = W(2 + grow, L'x'); uint32_t total = base + 2 * grow;
    resource_directory root; pe_resource_manager mg(root); resource_version_info_writer w(mg); resource_version_info_reader r(mg); bool th = THROWS(w.set_version_info(mk(i), m, translation_values_map(), 1)); sym_print("total", total); if (th) { sym_assert(root.get_entry_list().empty(), "refused version information changes nothing"); sym_assert(total > 0xffff - 4, "version information of any size the format can store is accepted"); sym_reach("too long"); return; } structure(mg.get_resource_data_by_id(1, pe_resource_viewer::resource_version, 1).get_data(), i, m, translation_values_map()); lang_string_values_map m2; translation_values_map t2; r.get_version_info(m2, t2); same(m, m2); sym_reach("long"); }
// characters the format cannot store
extern "C" void c24_unrepresentable() { Info i = { { 0 } }; lang_string_values_map m; W x(2, L'q'); x[sym_choose(2, "at")] = (wchar_t)sym_u32("char"); uint32_t c = x[0] == L'q' ? x[1] : x[0]; sym_assume((c > 0xffff) | ((c & 0xfffff800) == 0xd800)); unsigned where = sym_choose(3, "where"); m[where == 0 ? x : W(L"t")][where == 1 ? x : W(L"k")] = where == 2 ? x : W(L"v"); resource_directory root; pe_resource_manager mg(root); resource_version_info_writer w(mg); sym_assert(THROWS(w.set_version_info(mk(i), m, translation_values_map(), 1)), "unrepresentable characters are refused"); sym_assert(root.get_entry_list().empty(), "refused version information changes nothing"); sym_reach("unrepresentable"); }
// file version information object
extern "C" void c24_flags() { Info i = anyinfo(); file_version_info f = mk(i); sym_assert(is(f, i), "raw values"); static const uint32_t B[6] = { 1, 2, 4, 8, 0x20, 0x10 }; unsigned k = sym_choose(6, "flag"); bool on = sym_choose(2, "on"); switch (k) { case 0: f.set_debug(on); break; case 1: f.set_prerelease(on); break; case 2: f.set_patched(on); break; case 3: f.set_private_build(on); break; case 4: f.set_special_build(on); break; default: f.set_info_inferred(on); } if (on) i.v[4] |= B[k]; else i.v[4] &= ~B[k]; sym_assert(is(f, i), "a flag setter changes its flag only"); uint32_t fl = i.v[4]; sym_assert((f.is_debug() == ((fl & 1) != 0)) & (f.is_prerelease() == ((fl & 2) != 0)) & (f.is_patched() == ((fl & 4) != 0)) & (f.is_private_build() == ((fl & 8) != 0)) & (f.is_special_build() == ((fl & 0x20) != 0)) & (f.is_info_inferred() == ((fl & 0x10) != 0)), "flags are reported"); sym_reach("flags"); }
extern "C" void c24_os()
{
    static const uint32_t V[15] = { 0, 0x10000, 0x20000, 0x30000, 0x40000, 0x50000, 1, 2, 3, 4, 0x10001, 0x10004, 0x20002, 0x30003, 0x40004 }; static const uint32_t T[7] = { 0, 1, 2, 3, 4, 5, 7 }; file_version_info f; unsigned k = sym_choose(15, "os"); f.set_file_os_raw(sym_u32("oldos")); uint32_t oo = f.get_file_os_raw(); f.set_file_os((file_version_info::file_os_type)k); sym_assert(f.get_file_os_raw() == (k ? V[k] : oo), "OS values"); unsigned t = sym_choose(7, "type"); f.set_file_type_raw(sym_u32("oldtype")); uint32_t ot = f.get_file_type_raw(); f.set_file_type((file_version_info::file_type)t); sym_assert(f.get_file_type_raw() == (t ? T[t] : ot), "type values");
    uint32_t v = sym_u32("raw"); f.set_file_os_raw(v); uint32_t want = 0; for (int i = 1; i < 15; i++) want = (uint32_t)sym_ite(v == V[i], i, want); sym_assert((uint32_t)f.get_file_os() == want, "OS is reported"); f.set_file_type_raw(v); want = 0; for (int i = 1; i < 7; i++) want = (uint32_t)sym_ite(v == T[i], i, want); sym_assert((uint32_t)f.get_file_type() == want, "type is reported"); sym_reach("os");
}
// ---- damaged blocks: arbitrary lengths in any block, cut anywhere: data or a library exception, and no byte read behind the end
static void p16(std::string& s, uint16_t v) { s.push_back(v); s.push_back(v >> 8); }
static void pkey(std::string& s, const char* k) { for (; *k; k++) p16(s, *k); p16(s, 0); while (s.size() & 3) s.push_back(0); }
static void damaged(bool var, bool two)
{
    std::string s; p16(s, 0); p16(s, 52); p16(s, 0); pkey(s, "VS_VERSION_INFO"); static const uint32_t F[13] = { 0xfeef04bd, 0x10000 }; for (int i = 0; i < 13; i++) { p16(s, F[i]); p16(s, F[i] >> 16); } size_t b1 = s.size(); p16(s, 0); p16(s, 0); p16(s, 1); pkey(s, var ? "VarFileInfo" : "StringFileInfo"); size_t b2 = s.size(); p16(s, 0); p16(s, 0); p16(s, 1); pkey(s, var ? "Translation" : "tab"); size_t b3 = s.size(); if (!var) { p16(s, 0); p16(s, 0); p16(s, 1); pkey(s, "k"); } s += std::string(6, 'v'); size_t n = s.size();
    size_t at[4] = { 0, b1, b2, b3 }; unsigned nb = var ? 3 : 4; for (unsigned i = 0; i < nb; i++) { uint16_t L = n - at[i]; s[at[i]] = L; s[at[i] + 1] = L >> 8; } s[b3 + (var ? 0 : 2)] = 3; if (var) s[b2 + 2] = 4;
    // one field of one block (or of the last block as well) is any value near the end of the data, near zero or near the limits; then the data is cut
    for (int c = 0; c < (two ? 2 : 1); c++) { unsigned k = c ? nb - 1 : sym_choose(nb, "block"); unsigned f = sym_choose(2, "field"); uint16_t v = sym_u16("length"); uint16_t real = f ? n - b3 : n - at[k]; unsigned wdw = sym_choose(3, "window"); uint16_t lo = wdw == 0 ? 0 : wdw == 1 ? real - 9 : 0xfff0; sym_assume((uint16_t)(v - lo) < 16); v = (uint16_t)sym_concretize(v); s[at[k] + 2 * f] = v; s[at[k] + 2 * f + 1] = v >> 8; }
    if (!two) sym_make(&s[b3 + 6], n - b3 - 6, "texts");
    unsigned cut = sym_choose(two ? 3 : 9, "cut"); s.resize(n - (cut < 6 ? cut : cut == 6 ? 14 : cut == 7 ? n - b1 + 1 : n - 7));
    resource_directory root; pe_resource_manager m(root); m.add_resource(s, pe_resource_viewer::resource_version, 1, 9); resource_version_info_reader r(m); lang_string_values_map sm; translation_values_map tm; bool th = THROWS(r.get_version_info(sm, tm)); sym_reach(th ? "refused" : "read");
}
extern "C" void c24_damagedstr() { damaged(false, false); }
extern "C" void c24_damagedvar() { damaged(true, false); }
extern "C" void c24_damagedstr2() { damaged(false, true); }
extern "C" void c24_damagedvar2() { damaged(true, true); }
// long texts, many strings, tables and translations
extern "C" void c24_large()
{
    static const unsigned L[6] = { 126, 254, 255, 256, 5000, 16382 }, N[3] = { 255, 256, 300 }; Info i = { { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 } }; lang_string_values_map m; translation_values_map t; unsigned k = sym_choose(20, "case");
    if (k < 6) m[L"041904b0"][L"k"] = text(1, true, "value") + W(L[k], L'v') + text(1, false, "valueend"); else if (k < 11) m[L"041904b0"][text(1, true, "key") + W(L[k - 6], L'k')] = L"v"; else if (k < 14) m[W(L[k - 11], L't') + text(1, true, "tkey")][L"k"] = L"v";
    else if (k < 17) { string_values_map& s = m[L"041904b0"]; for (unsigned j = 0; j < N[k - 14]; j++) { W q(1, 0x100 + j); s[q] = j == 254 ? text(2, false, "value") : W(j % 5, L'x'); } } else if (k == 17) for (unsigned j = 0; j < 257; j++) { W q(1 + j % 2, 0x100 + j); m[q][L"k"] = W(j % 3, L'y'); } else for (unsigned j = 0; j < (k == 18 ? 300u : 16000u); j++) t.insert(std::make_pair((uint16_t)(j * 3), (uint16_t)(j ^ 0x5aa5)));
    if (k >= 14 && k < 18) t.insert(std::make_pair(sym_u16("tlang"), sym_u16("tcp"))); trip(i, m, t, false);
}
// the version strings are the four 16-bit parts in decimal
template<class T> static void verstr(const file_version_info& f, bool product, const uint32_t* part)
{
    std::basic_string<T> s = product ? f.template get_product_version_string<T>() : f.template get_file_version_string<T>(); size_t at = 0;
    for (int k = 0; k < 4; k++) {
        unsigned digits = 1; for (uint32_t v = 10; v <= 10000 && part[k] >= v; v *= 10) digits++; sym_assert(at + digits <= s.size(), "the version string has all parts"); if (at + digits > s.size()) return;
        uint32_t v = part[k]; for (unsigned d = digits; d-- > 0; v /= 10) sym_assert(s[at + d] == (T)('0' + v % 10), "the version string shows the number"); at += digits; if (k < 3) { sym_assert(at < s.size() && s[at] == (T)'.', "the parts are separated"); at++; }
    }
    sym_assert(at == s.size(), "the version string ends after the last part");
}
extern "C" void c24_versionstring()
{
    uint32_t part[4]; unsigned which = sym_choose(4, "which"); for (unsigned k = 0; k < 4; k++) { static const uint32_t C[4] = { 10, 0, 65535, 9999 }; part[k] = C[k]; } part[which] = sym_u16("part"); bool product = sym_choose(2, "product"), wide = sym_choose(2, "wide");
    file_version_info f; uint32_t ms = part[0] << 16 | part[1], ls = part[2] << 16 | part[3]; if (product) { f.set_product_version_ms(ms); f.set_product_version_ls(ls); f.set_file_version_ms(~ms); f.set_file_version_ls(~ls); } else { f.set_file_version_ms(ms); f.set_file_version_ls(ls); f.set_product_version_ms(~ms); f.set_product_version_ls(~ls); }
    if (wide) verstr<wchar_t>(f, product, part); else verstr<char>(f, product, part); sym_reach("string");
}
