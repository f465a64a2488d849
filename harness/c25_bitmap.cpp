// C25: bitmap resources round-trip.
#include "dir.h"
#include "pe_resource_manager.h"
#include "resource_bitmap_reader.h"
#include "resource_bitmap_writer.h"
typedef pe_resource_viewer PV;
static uint32_t g16(const std::string& s, size_t o) { return (uint8_t)s[o] | (uint32_t)(uint8_t)s[o + 1] << 8; }
static uint32_t g32(const std::string& s, size_t o) { return g16(s, o) | g16(s, o + 2) << 16; }
static void p16(std::string& s, size_t o, uint16_t v) { s[o] = v; s[o + 1] = v >> 8; }
static void p32(std::string& s, size_t o, uint32_t v) { p16(s, o, v); p16(s, o + 2, v >> 16); }
// where the pixels of a device-independent bitmap start
static uint32_t pixels(const std::string& d) { uint32_t size = g32(d, 0), bits = g16(d, 14), comp = g32(d, 16), used = g32(d, 32); uint32_t pal = (uint32_t)sym_ite(used != 0, used, sym_ite((bits != 0) & (bits <= 8), 1u << (bits & 15), 0)); return 14 + size + (uint32_t)sym_ite((size == 40) & (comp == 3), 12, 0) + 4 * pal; }
// a device-independent bitmap: header of 40, 108 or 124 bytes, masks, palette, pixels
static std::string dib(unsigned px, uint32_t& off)
{
    static const unsigned H[3] = { 40, 108, 124 }; unsigned h = H[sym_choose(3, "header")]; std::string s = sym_str(h, "header"); p32(s, 0, h); uint32_t comp = g32(s, 16), bits = g16(s, 14), used = g32(s, 32); bool masks = h == 40 && sym_concretize(comp == 3); uint32_t n; if (sym_concretize(used != 0)) { n = 1 + sym_choose(4, "colours"); sym_assume(used == n); p32(s, 32, n); } else if (sym_concretize((bits != 0) & (bits <= 8))) { static const uint32_t B[4] = { 1, 2, 4, 8 }; uint32_t b = B[sym_choose(4, "bits")]; sym_assume(bits == b); p16(s, 14, b); n = 1u << b; } else n = 0;
    off = 14 + h + (masks ? 12 : 0) + 4 * n; if (masks) s += sym_str(12, "masks"); if (n) s += sym_str(4 * n, "palette"); s += sym_str(px, "pixels"); return s;
}
static std::string file(const std::string& d, uint32_t off) { std::string f(14, 0); f[0] = 'B'; f[1] = 'M'; p32(f, 2, 14 + d.size()); p32(f, 10, off); return f + d; }
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && eqs(a, b); }
static const std::wstring NM(L"TEST");
// storing in a tree that may hold the same bitmap, another one and other resources; every way of reading
extern "C" void c25_trip()
{
    resource_directory root; pe_resource_manager m(root); resource_bitmap_writer w(m); resource_bitmap_reader r(m); bool named = sym_choose(2, "named"); uint32_t id = sym_u32("id") & 0x7fffffff, lang = sym_u32("lang"), cp = sym_u32("codepage"), ts = sym_u32("timestamp"); uint32_t off; std::string d = dib(sym_choose(4, "pixels"), off), f = file(d, off);
    std::wstring name(1 + sym_choose(2, "namelen"), 0); for (size_t i = 0; i < name.size(); i++) { uint16_t c = sym_u16("name"); sym_assume((c != 0) & ((c & 0xf800) != 0xd800)); name[i] = c; }
    unsigned before = sym_choose(4, "before"); std::string old = "BMxxxxyyyyzzzz" + std::string(44, 'o'); uint32_t olang = lang ^ (before == 1 ? 0 : 1), oid = id ^ (before == 3 ? 1 : 0); if (before) { if (named && before != 3) w.add_bitmap(old, name, olang, 9, 8); else w.add_bitmap(old, oid, olang, 9, 8); } std::string icon("icon"); m.add_resource(icon, PV::resource_icon, id, lang, 3);
    if (named) w.add_bitmap(f, name, lang, cp, ts); else w.add_bitmap(f, id, lang, cp, ts);
    std::string got = named ? r.get_bitmap_by_name(lang, name) : r.get_bitmap_by_id_lang(lang, id); sym_assert(eq(got, f), "the bitmap file is read back"); resource_data_info di = named ? m.get_resource_data_by_name(lang, PV::resource_bitmap, name) : m.get_resource_data_by_id(lang, PV::resource_bitmap, id); sym_assert(eq(di.get_data(), d) && di.get_codepage() == cp, "the resource is the file without its header, with the code page"); sym_assert(!THROWS(m.get_resource_data_by_id(lang, PV::resource_icon, id)) && eq(m.get_resource_data_by_id(lang, PV::resource_icon, id).get_data(), icon), "other resources are kept");
    if (before != 2) { got = named ? r.get_bitmap_by_name(name, 0) : r.get_bitmap_by_id(id, 0); sym_assert(eq(got, f), "the bitmap is read by index"); sym_assert(named ? THROWS(r.get_bitmap_by_name(name, 1)) : THROWS(r.get_bitmap_by_id(id, 1)), "there is one bitmap"); } else { got = named ? r.get_bitmap_by_name(olang, name) : r.get_bitmap_by_id_lang(olang, id); sym_assert(eq(got.substr(14), old.substr(14)), "bitmaps in other languages are kept"); }
    if (before == 3) sym_assert(eq(r.get_bitmap_by_id_lang(olang, oid).substr(14), old.substr(14)), "other bitmaps are kept");
    uint32_t ql = sym_u32("querylang"); bool has = sym_concretize(ql == lang) || (before == 2 && sym_concretize(ql == olang)); sym_assert((named ? THROWS(r.get_bitmap_by_name(ql, name)) : THROWS(r.get_bitmap_by_id_lang(ql, id))) == !has, "absent bitmaps are reported");
    sym_assert(named ? w.remove_bitmap(name, lang) : w.remove_bitmap(id, lang), "removal succeeds"); sym_assert(named ? THROWS(r.get_bitmap_by_name(lang, name)) : THROWS(r.get_bitmap_by_id_lang(lang, id)), "removed bitmaps are gone"); sym_assert(!(named ? w.remove_bitmap(name, lang) : w.remove_bitmap(id, lang)), "removing twice is reported"); if (before == 2) sym_assert(!(named ? THROWS(r.get_bitmap_by_name(olang, name)) : THROWS(r.get_bitmap_by_id_lang(olang, id))), "bitmaps in other languages are kept by removal"); if (before == 3) sym_assert(!THROWS(r.get_bitmap_by_id_lang(olang, oid)), "other bitmaps are kept by removal"); sym_assert(eq(m.get_resource_data_by_id(lang, PV::resource_icon, id).get_data(), icon), "other resources are kept by removal"); sym_reach("trip");
}
// the file header of any stored device-independent bitmap whose pixels lie in it
extern "C" void c25_header()
{
    unsigned n = 40 + 8 * sym_choose(6, "size"); std::string d = sym_str(n, "bytes"); resource_directory root; pe_resource_manager m(root); m.add_resource(d, PV::resource_bitmap, 5, 9); resource_bitmap_reader r(m); uint32_t h = g32(d, 0), bits = g16(d, 14), used = g32(d, 32); sym_assume((h >= 40) & (h <= n) & (used <= n / 4)); std::string f = r.get_bitmap_by_id(5); sym_assert(f.size() == n + 14 && eqs(f.substr(14), d), "the data is returned"); uint32_t off = pixels(d); sym_assert((g16(f, 0) == 0x4d42) & (g32(f, 2) == n + 14) & (g32(f, 6) == 0), "signature and size"); sym_assert((g32(f, 10) == off) | (off > n + 14), "the pixel offset accounts for header, masks and palette"); sym_assert((bits > 8) | (used != 0) | (g32(f, 10) == off), "the pixel offset accounts for the implied palette"); sym_reach("header");
}
// data too short for a bitmap
extern "C" void c25_short()
{
    resource_directory root; pe_resource_manager m(root); resource_bitmap_writer w(m); resource_bitmap_reader r(m); unsigned n = sym_choose(54, "size"); std::string f = sym_str(n, "bytes"); bool named = sym_choose(2, "named"); bool th = named ? THROWS(w.add_bitmap(f, NM, 1)) : THROWS(w.add_bitmap(f, 5, 1)); if (n < 14) { sym_assert(th && root.get_entry_list().empty(), "data without a file header is refused and changes nothing"); sym_reach("refused"); return; }
    if (!th) { sym_assert(named ? THROWS(r.get_bitmap_by_name(1, NM)) : THROWS(r.get_bitmap_by_id_lang(1, 5)), "data without an info header is refused"); sym_assert(named ? THROWS(r.get_bitmap_by_name(NM)) : THROWS(r.get_bitmap_by_id(5)), "data without an info header is refused"); } else sym_assert(root.get_entry_list().empty(), "refused data changes nothing"); sym_reach("short");
}
// pixels of any length
extern "C" void c25_large()
{
    static const unsigned N[7] = { 255, 256, 4096, 0xfff0, 0xffff, 0x10000, 0x10001 }; resource_directory root; pe_resource_manager m(root); resource_bitmap_writer w(m); resource_bitmap_reader r(m); unsigned n = N[sym_choose(7, "pixels")]; uint32_t off; std::string d = dib(1, off); d += std::string(n, 'p'); d[d.size() - 1] = sym_u8("lastpixel"); std::string f = file(d, off); w.add_bitmap(f, 5, 9); sym_assert(eq(r.get_bitmap_by_id_lang(9, 5), f) && eq(r.get_bitmap_by_id(5), f), "the bitmap file is read back"); sym_assert(eq(m.get_resource_data_by_id(9, PV::resource_bitmap, 5).get_data(), d), "the resource is the file without its header, with the code page"); sym_reach("large");
}
