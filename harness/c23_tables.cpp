// C23: string and message tables are decoded exactly.
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_string_table_reader.h"
#include "resource_message_list_reader.h"
#include <map>
#include <vector>
typedef pe_resource_viewer PV;
static uint16_t g16(const std::string& s, size_t o) { return (uint8_t)s[o] | (uint8_t)s[o + 1] << 8; }
static uint32_t g32(const std::string& s, size_t o) { return g16(s, o) | (uint32_t)g16(s, o + 2) << 16; }
static void p16(std::string& s, uint16_t v) { s.push_back(v); s.push_back(v >> 8); }
static void p32(std::string& s, uint32_t v) { p16(s, v); p16(s, v >> 16); }
static bool weq(const std::wstring& a, const std::string& s, size_t o, size_t n) { if (a.size() != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r = r & ((uint32_t)a[i] == g16(s, o + 2 * i)); return r; }
static bool plain(const std::string& s, size_t o, size_t n) { bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & ((g16(s, o + 2 * i) & 0xf800) != 0xd800); return sym_concretize(ok); }
struct Txt { size_t at, n; };
// independent decoding of a string table: position and length of the 16 strings
static bool strings(const std::string& s, Txt* t) { size_t p = 0; for (int i = 0; i < 16; i++) { if (p + 2 > s.size()) return false; uint32_t n = g16(s, p); p += 2; if (sym_concretize(n > (s.size() - p) / 2)) return false; n = (uint32_t)sym_concretize(n); t[i].at = p; t[i].n = n; if (!plain(s, p, n)) return false; p += 2 * n; } return true; }
static void checkstrings(const std::string& s, bool lookups, bool anyid = true)
{
    Txt t[16]; bool ok = strings(s, t); static const uint32_t ID[3] = { 1, 7, 4096 }; uint32_t id = anyid ? sym_u32("table") : ID[sym_choose(3, "table")], lang = sym_u32("lang"); sym_assume(id != 0); resource_directory root; pe_resource_manager m(root); m.add_resource(s, PV::resource_string, id, lang); resource_string_table_reader r(m); resource_string_list l; bool ix = sym_choose(2, "index"); bool th = THROWS(l = ix ? r.get_string_table_by_id(id) : r.get_string_table_by_id_lang(lang, id)); sym_assert(th == !ok, "exactly well formed string tables are decoded"); if (th) { sym_reach("strings refused"); return; }
    size_t n = 0; for (int i = 0; i < 16; i++) { uint16_t key = (id - 1) * 16 + i; resource_string_list::const_iterator it = l.find(key); sym_assert((it != l.end()) == (t[i].n != 0), "the non-empty strings are listed"); if (t[i].n) { n++; if (it != l.end()) sym_assert(weq(it->second, s, t[i].at, t[i].n), "string text"); } } sym_assert(l.size() == n, "nothing else is listed");
    if (lookups) { uint16_t q = sym_u16("string"); uint32_t lq = sym_u32("querylang"); bool here = sym_concretize((uint32_t)(q >> 4) + 1 == id), hl = ix || sym_concretize(lq == lang); unsigned k = here ? (unsigned)sym_concretize(q & 15) : 0; std::wstring w; bool none = THROWS(w = ix ? r.get_string_by_id(q) : r.get_string_by_id_lang(lq, q)); sym_assert(none == !(here && hl && t[k].n), "exactly existing strings are found"); if (!none) sym_assert(weq(w, s, t[k].at, t[k].n), "the string found equals the one in the table"); }
    sym_reach("strings");
}
extern "C" void c23_strings() { unsigned i = sym_choose(16, "first"), j = sym_choose(16, "second"); sym_assume(i < j); std::string s; for (unsigned k = 0; k < 16; k++) { unsigned n = k == i ? 2 : k == j ? 1 : 0; p16(s, n); if (n) s += sym_str(2 * n, "text"); } checkstrings(s, false); }
extern "C" void c23_lookup() { unsigned i = sym_choose(4, "first"); std::string s; for (unsigned k = 0; k < 16; k++) { unsigned n = k == 5 * i ? 2 : k == 7 ? 3 : 0; p16(s, n); for (unsigned z = 0; z < n; z++) { uint16_t c = sym_u16("char"); sym_assume((c & 0xf800) != 0xd800); p16(s, c); } } checkstrings(s, true); }
// any bytes, after some empty strings
extern "C" void c23_anystrings() { static const unsigned Z[4] = { 0, 9, 14, 16 }; unsigned z = Z[sym_choose(4, "empty")]; checkstrings(std::string(2 * z, 0) + sym_str(sym_choose(10, "len"), "bytes"), false, false); }
extern "C" void c23_anystrings2() { unsigned z = 10 + sym_choose(3, "empty"); checkstrings(std::string(2 * z, 0) + sym_str(10 + sym_choose(4, "len"), "bytes"), false, false); }
// a long string at any place near the end of the data
extern "C" void c23_longstring() { unsigned k = sym_choose(16, "slot"); uint16_t n = sym_u16("length"); static const unsigned C[4] = { 0, 2, 3, 6 }; std::string s; for (unsigned i = 0; i < k; i++) p16(s, 0); p16(s, n); s += std::string(C[sym_choose(4, "chars")], 'a') + std::string(2 * (15 - k), 0); checkstrings(s, false); }
struct Msg { bool uni; size_t at, n; };
typedef std::vector<std::pair<uint32_t, Msg> > Msgs;
// independent decoding of a message table
static bool messages(const std::string& s, Msgs& out)
{
    uint64_t len = s.size(); if (len < 4) return false; uint64_t nb = g32(s, 0); if (sym_concretize(nb * 12 + 4 > len)) return false; nb = sym_concretize(nb);
    for (uint64_t b = 0; b < nb; b++) { uint32_t low = g32(s, 4 + 12 * b), high = g32(s, 8 + 12 * b), off = g32(s, 12 + 12 * b); if (sym_concretize(low > high)) return false; if (sym_concretize(off > len)) return false; uint64_t p = sym_concretize(off); for (uint32_t k = 0;; k++) { if (p + 4 > len) return false; uint32_t n = g16(s, p); bool uni = sym_concretize(g16(s, p + 2) & 1); if (sym_concretize((n < 4) | (n > len - p))) return false; n = (uint32_t)sym_concretize(n); if (uni && n % 2) return false; if (uni && !plain(s, p + 4, (n - 4) / 2)) return false; Msg m = { uni, (size_t)p + 4, uni ? (n - 4) / 2 : n - 4 }; while (m.n && sym_concretize(uni ? g16(s, m.at + 2 * (m.n - 1)) == 0 : s[m.at + m.n - 1] == 0)) m.n--; out.push_back(std::make_pair(low + k, m)); p += n; if (sym_concretize(high - low == k)) break; } } return true;
}
static void checkmsgs(const std::string& s)
{
    Msgs w; bool ok = messages(s, w); uint32_t lang = sym_u32("lang"), id = sym_u32("id"); resource_directory root; pe_resource_manager m(root); m.add_resource(s, PV::resource_message_table, id, lang); resource_message_list_reader r(m); resource_message_list l; bool ix = sym_choose(2, "index"); bool th = THROWS(l = ix ? r.get_message_table_by_id(id) : r.get_message_table_by_id_lang(lang, id)); sym_assert(th == !ok, "exactly well formed message tables are decoded"); if (th) { sym_reach("messages refused"); return; }
    size_t n = 0; for (size_t i = 0; i < w.size(); i++) { bool dup = false; for (size_t j = 0; j < i; j++) dup = dup | (w[j].first == w[i].first); if (sym_concretize(dup)) continue; n++; resource_message_list::const_iterator it = l.find(w[i].first); sym_assert(it != l.end(), "every message is listed"); if (it == l.end()) continue; const Msg& g = w[i].second; sym_assert(it->second.is_unicode() == g.uni, "message kind"); if (g.uni) sym_assert(weq(it->second.get_unicode_string(), s, g.at, g.n) && it->second.get_ansi_string().empty(), "Unicode text without trailing nulls"); else sym_assert(eqs(it->second.get_ansi_string(), s.substr(g.at, g.n)) && it->second.get_unicode_string().empty(), "ANSI text without trailing nulls"); }
    sym_assert(l.size() == n, "nothing else is listed"); sym_reach("messages");
}
// well formed: blocks of messages one after the other
static void blocks(unsigned nb, unsigned per, unsigned maxlen) { std::string head, body; p32(head, nb); for (unsigned b = 0; b < nb; b++) { unsigned n = 1 + (b == 0 ? sym_choose(per, "messages") : 0); uint32_t low = sym_u32("low"); sym_assume(low <= 0xffffffffu - (n - 1)); p32(head, low); p32(head, low + (n - 1)); p32(head, 4 + 12 * nb + body.size()); for (unsigned i = 0; i < n; i++) { unsigned uni = sym_choose(2, "unicode"), len = sym_choose(maxlen + 1, "textlen"); if (uni) len &= ~1u; p16(body, 4 + len); uint16_t f = sym_u16("flags"); sym_assume((f & 1) == uni); p16(body, f); if (uni) for (unsigned c = 0; c < len; c += 2) { uint16_t v = sym_u16("char"); sym_assume((v & 0xf800) != 0xd800); p16(body, v); } else body += sym_str(len, "text"); } } checkmsgs(head + body); }
extern "C" void c23_block() { blocks(1, 2, 4); }
extern "C" void c23_blocks() { blocks(2, 1, 3); }
extern "C" void c23_none() { blocks(0, 1, 1); }
// any bytes
extern "C" void c23_anyblock() { static const unsigned L[7] = { 0, 3, 4, 15, 16, 19, 20 }; checkmsgs(sym_str(L[sym_choose(7, "len")], "bytes")); }
extern "C" void c23_anyblock2() { checkmsgs(sym_str(21 + sym_choose(4, "len"), "bytes")); }
// a table of one block with any ids and offset and any messages
static void oneblock(unsigned min, unsigned nlen) { std::string s; p32(s, 1 + sym_choose(2, "blocks") * 0x15555555); s += sym_str(12, "block") + sym_str(min + sym_choose(nlen, "len"), "messages"); checkmsgs(s); }
extern "C" void c23_entries() { oneblock(5, 3); }
extern "C" void c23_entries2() { oneblock(8, 2); }
// message items
extern "C" void c23_item() { std::string a = sym_str(sym_choose(4, "len"), "ansi"); std::wstring w; unsigned wl = sym_choose(3, "wlen"); for (unsigned i = 0; i < wl; i++) w.push_back((wchar_t)sym_u32("char")); message_table_item i(a), j(w), d; size_t an = a.size(), wn = w.size(); while (an && sym_concretize(a[an - 1] == 0)) an--; while (wn && sym_concretize(w[wn - 1] == 0)) wn--; std::wstring ws = w.substr(0, wn); std::string as = a.substr(0, an); bool same = j.get_unicode_string().size() == wn; for (size_t k = 0; same && k < wn; k++) sym_assert(j.get_unicode_string()[k] == w[k], "text is kept"); sym_assert(same && j.is_unicode() && j.get_ansi_string().empty(), "Unicode item"); sym_assert(!i.is_unicode() && eqs(i.get_ansi_string(), as) && i.get_unicode_string().empty(), "ANSI item"); sym_assert(!d.is_unicode() && d.get_ansi_string().empty() && d.get_unicode_string().empty(), "default item"); i.set_string(w); j.set_string(a); sym_assert(i.is_unicode() && i.get_ansi_string().empty() && i.get_unicode_string().size() == wn && !j.is_unicode() && eqs(j.get_ansi_string(), as) && j.get_unicode_string().empty(), "setting one kind clears the other"); sym_reach("item"); }
// long messages, many messages, many blocks
extern "C" void c23_large()
{
    static const unsigned L[7] = { 252, 256, 1000, 0x7ffc, 0x8000, 0xfff0, 0xfffb }, N[3] = { 255, 256, 300 }; unsigned k = sym_choose(13, "case"), uni = sym_choose(2, "unicode"); std::string head, body; auto msg = [&](unsigned len, bool s) { if (uni) len &= ~1u; p16(body, 4 + len); p16(body, uni); std::string t(len, uni ? 1 : 'm'); if (s) { if (uni) { uint16_t v = sym_u16("char"); sym_assume((v & 0xf800) != 0xd800); t[len - 2] = v; t[len - 1] = v >> 8; } else t[len - 1] = sym_u8("last"); } body += t; };
    if (k < 7) { uint32_t low = sym_u32("low"); sym_assume(low < 0xfffffffe); p32(head, 1); p32(head, low); p32(head, low + 1); p32(head, 16); msg(L[k], true); msg(2, true); } else if (k < 10) { uint32_t low = 0x100 * sym_choose(2, "low"); p32(head, 1); p32(head, low); p32(head, low + N[k - 7] - 1); p32(head, 16); for (unsigned i = 0; i < N[k - 7]; i++) msg(2 + 2 * (i % 3), i == 254); }
    else { unsigned n = N[k - 10]; p32(head, n); for (unsigned i = 0; i < n; i++) { p32(head, 0x1000 + 2 * i); p32(head, 0x1000 + 2 * i); p32(head, 4 + 12 * n + body.size()); msg(4, i == 255); } } checkmsgs(head + body);
}
// strings of any length
extern "C" void c23_longstrings() { static const unsigned L[7] = { 127, 255, 256, 300, 0x7fff, 0x8001, 0xffff }; unsigned n = L[sym_choose(7, "length")]; std::string s; for (unsigned i = 0; i < 16; i++) { unsigned c = i == 3 ? n : i == 9 ? 2 : 0; p16(s, c); for (unsigned j = 0; j < c; j++) p16(s, j == c - 1 ? 0x3000 + sym_u8("char") : 'a' + j % 26); } checkstrings(s, false); }
