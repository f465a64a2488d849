// C26: debug, exception, .NET and rich-header data are decoded exactly.
#include "dir.h"
#include "pe_debug.h"
#include "pe_exception_directory.h"
#include "pe_dotnet.h"
#include "pe_rich_data.h"
#include <vector>
// a file with one section at 0x1000 (file offset and length 0x200) and a directory; both alignments 0x200, so that the section ends with its data
static std::string mkfile(bool pe64, unsigned dir, uint32_t rva, uint32_t size) { Layout l = mkLayout(pe64, 1, 16); std::string f(0x400, 0); fillHeaders(f, l); put32(f, l.lf + H_SALIGN, 0x200); put32(f, l.lf + H_HDRSIZE, 0x200); put32(f, l.lf + H_IMGSIZE, 0x1200); unsigned o = l.sec(0); put32(f, o + S_VSIZE, 0x200); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 0x200); put32(f, o + S_RAWPTR, 0x200); put32(f, l.dirs() + 8 * dir, rva); put32(f, l.dirs() + 8 * dir + 4, size); return f; }
static pe_base open(const std::string& f) { std::istringstream in(f); return pe_base(pe_factory::create_pe(in)); }
// where a table of n bytes lies: at the start, inside or at the very end of the section, or in the headers
static uint32_t place(uint32_t n, uint32_t& off) { switch (sym_choose(4, "place")) { case 0: off = 0x200; return 0x1000; case 1: off = 0x208; return 0x1008; case 2: off = 0x400 - n; return 0x1200 - n; default: off = 0x190; return 0x190; } }
static bool fields(const debug_info& d, const std::string& f, uint32_t o) { return (d.get_characteristics() == get32(f, o)) & (d.get_time_stamp() == get32(f, o + 4)) & (d.get_major_version() == get16(f, o + 8)) & (d.get_minor_version() == get16(f, o + 10)) & (d.get_type_raw() == get32(f, o + 12)) & (d.get_size_of_data() == get32(f, o + 16)) & (d.get_rva_of_raw_data() == get32(f, o + 20)) & (d.get_pointer_to_raw_data() == get32(f, o + 24)); }
static bool kind(const debug_info& d, uint32_t t) { static const debug_info::debug_info_type T[12] = { debug_info::debug_type_unknown, debug_info::debug_type_coff, debug_info::debug_type_codeview, debug_info::debug_type_fpo, debug_info::debug_type_misc, debug_info::debug_type_exception, debug_info::debug_type_fixup, debug_info::debug_type_omap_to_src, debug_info::debug_type_omap_from_src, debug_info::debug_type_borland, debug_info::debug_type_reserved10, debug_info::debug_type_clsid }; uint32_t want = debug_info::debug_type_unknown; for (int i = 1; i < 12; i++) want = (uint32_t)sym_ite(t == (uint32_t)i, T[i], want); return (uint32_t)d.get_type() == want; }
enum Adv { NONE, P7, P2, MISC, COFF, OTHER };
// only the advanced information of the reported type is available
static void only(const debug_info& d, Adv a) { sym_assert(THROWS(d.get_advanced_debug_info<pdb_7_0_info>()) == (a != P7) && THROWS(d.get_advanced_debug_info<pdb_2_0_info>()) == (a != P2) && THROWS(d.get_advanced_debug_info<misc_debug_info>()) == (a != MISC) && THROWS(d.get_advanced_debug_info<coff_debug_info>()) == (a != COFF), "information that is not present is refused"); }
// ---- the entries themselves, any number of them, any fields
extern "C" void c26_entries()
{
    unsigned n = sym_choose(4, "entries"), extra = sym_choose(3, "extra"); uint32_t off, size = 28 * (n + (extra == 1)), at = place(size ? size : 28, off); std::string f = mkfile(false, 6, at, size ? size : 28); if (off == 0x208) symbytes(f, 0x200, 8, "before");
    for (unsigned i = 0; i < n; i++) { symbytes(f, off + 28 * i, 28, "entry"); uint32_t t = get32(f, off + 28 * i + 12); sym_assume((t != 1) & (t != 2) & (t != 4) & (get32(f, off + 28 * i + 24) != 0)); } if (extra == 2 && off + size + 28 <= 0x400 && n) symbytes(f, off + size, 28, "behind");
    pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == n, "as many entries as the directory has"); if (l.size() != n) return; for (unsigned i = 0; i < n; i++) { sym_assert(fields(l[i], f, off + 28 * i), "fields of an entry"); sym_assert(kind(l[i], get32(f, off + 28 * i + 12)), "type of an entry"); sym_assert(l[i].get_advanced_info_type() == debug_info::advanced_info_none, "no more information"); only(l[i], NONE); } sym_reach("entries");
}
extern "C" void c26_nodebug() { std::string f = mkfile(false, 6, 0, sym_u32("size")); pe_base p = open(f); sym_assert(get_debug_information(p).empty(), "no debug directory"); pe_base q = mkimage(sym_choose(2, "pe64")); sym_assert(get_debug_information(q).empty() && get_exception_directory_data(q).empty() && THROWS(get_basic_dotnet_info(q)) && get_rich_data(q).empty(), "an image without directories has no data"); sym_reach("none"); }
// one or two entries with detailed data of the given bytes each; the data lies in the section or behind it
static void entry(std::string& f, unsigned i, uint32_t type, uint32_t ptr, uint32_t len) { uint32_t o = 0x200 + 28 * i; symbytes(f, o, 12, "entry"); put32(f, o + 12, type); put32(f, o + 16, len); symbytes(f, o + 20, 4, "rva"); put32(f, o + 24, ptr); }
static std::string withdata(uint32_t type, const std::string& d, const std::string* d2, uint32_t type2)
{
    unsigned n = d2 ? 2 : 1; std::string f = mkfile(false, 6, 0x1000, 28 * n); bool inside = sym_choose(2, "inside"); uint32_t at = inside ? 0x250 : f.size(); if (inside) f.replace(at, d.size(), d); else f += d; entry(f, 0, type, at, d.size()); if (d2) { at = f.size(); f += *d2; entry(f, 1, type2, at, d2->size()); } return f;
}
template<class T> static T adv(const debug_info& d) { return d.get_advanced_debug_info<T>(); }
// the same object after copying, assigning over other information and assigning to itself
static debug_info moved(const debug_info& d, const debug_info& over) { unsigned how = sym_choose(4, "copy"); if (how == 0) return d; if (how == 1) { debug_info e(over); e = d; return e; } if (how == 2) { debug_info e(d); const debug_info& r = e; e = r; return e; } debug_info e; e = d; debug_info g(e); return g; }
static std::string pdb(bool seven, const std::string& name, const std::string& tail) { std::string d(seven ? "RSDS" : "NB10"); d += sym_str(seven ? 20 : 12, "pdb"); return d + name + std::string(1, 0) + tail; }
extern "C" void c26_pdb()
{
    bool seven = sym_choose(2, "seven"), two = sym_choose(2, "two"); std::string name = sym_name(sym_choose(4, "namelen"), "name"), tail = sym_str(sym_choose(3, "tail"), "tail"), d = pdb(seven, name, tail), d2 = pdb(!seven, "x", ""); std::string f = withdata(2, d, two ? &d2 : 0, 2); pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == (two ? 2u : 1u), "as many entries as the directory has"); if (l.size() != (two ? 2u : 1u)) return;
    debug_info over; debug_info i = moved(l[0], two ? l[1] : over); sym_assert(fields(i, f, 0x200), "fields of an entry"); sym_assert(i.get_advanced_info_type() == (seven ? debug_info::advanced_info_pdb_7_0 : debug_info::advanced_info_pdb_2_0), "kind of information"); only(i, seven ? P7 : P2);
    if (seven) { pdb_7_0_info x = adv<pdb_7_0_info>(i); guid g = x.get_guid(); sym_assert(sym_eqmem(&g, d.data() + 4, 16) & (x.get_age() == get32(d, 20)), "GUID and age"); sym_assert(eqs(x.get_pdb_file_name(), name), "PDB file name"); } else { pdb_2_0_info x = adv<pdb_2_0_info>(i); sym_assert((x.get_signature() == get32(d, 8)) & (x.get_age() == get32(d, 12)), "signature and age"); sym_assert(eqs(x.get_pdb_file_name(), name), "PDB file name"); }
    if (two) { sym_assert(fields(l[1], f, 0x21c), "fields of an entry"); only(l[1], seven ? P2 : P7); if (seven) sym_assert(adv<pdb_2_0_info>(l[1]).get_age() == get32(d2, 12) && adv<pdb_2_0_info>(l[1]).get_pdb_file_name() == "x", "second entry"); else sym_assert(adv<pdb_7_0_info>(l[1]).get_age() == get32(d2, 20) && adv<pdb_7_0_info>(l[1]).get_pdb_file_name() == "x", "second entry"); } sym_reach("pdb");
}
extern "C" void c26_codeview()
{
    static const char* S[3] = { "NB09", "NB11", "NB05" }; static const debug_info::advanced_info_type T[3] = { debug_info::advanced_info_codeview_4_0, debug_info::advanced_info_codeview_5_0, debug_info::advanced_info_codeview }; unsigned k = sym_choose(4, "kind"); std::string d = sym_str(8 + sym_choose(3, "len"), "data"); if (k < 3) d.replace(0, 4, S[k]); else { uint32_t s = get32(d, 0); sym_assume((s != 0x3930424e) & (s != 0x3131424e) & (s != 0x3530424e) & (s != 0x53445352) & (s != 0x3031424e)); }
    std::string f = withdata(2, d, 0, 0); pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == 1, "one entry"); if (l.size() != 1) return; debug_info over; debug_info i = moved(l[0], over); sym_assert(fields(i, f, 0x200), "fields of an entry"); sym_assert(i.get_advanced_info_type() == (k < 3 ? T[k] : debug_info::advanced_info_none), "kind of CodeView information"); only(i, k < 3 ? OTHER : NONE); sym_reach("codeview");
}
extern "C" void c26_misc()
{
    bool uni = sym_choose(2, "unicode"), two = sym_choose(2, "two"); unsigned n = sym_choose(5, "len"), pad = sym_choose(3, "pad"), tail = sym_choose(2, "tail") * 3; std::string d = sym_str(12, "header"); put32(d, 4, 12 + (uni ? 2 : 1) * (n + pad)); std::string txt; std::wstring w; sym_assume(uni == (d[8] != 0)); if (!uni) { txt = sym_str(n, "text"); d += txt; } else for (unsigned i = 0; i < n; i++) { uint16_t c = sym_u16("char"); sym_assume((c & 0xf800) != 0xd800); w.push_back(c); d.push_back(c); d.push_back(c >> 8); } if (n) sym_assume(uni ? w[n - 1] != 0 : txt[n - 1] != 0); d.append(pad * (uni ? 2 : 1), 0); if (d.size() == 12) { put32(d, 4, 13 + uni); d.append(1 + uni, 0); } d += sym_str(tail, "tail");
    std::string d2("NB10\1\1\1\1\2\2\2\2\3\3\3\3q", 18); std::string f = withdata(4, d, two ? &d2 : 0, 2); pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == 1u + two, "as many entries as the directory has"); if (l.size() != 1u + two) return; debug_info i = moved(l[0], l[two]); sym_assert(fields(i, f, 0x200), "fields of an entry"); sym_assert(i.get_advanced_info_type() == debug_info::advanced_info_misc, "kind of information"); only(i, MISC); misc_debug_info m = adv<misc_debug_info>(i); sym_assert((m.get_data_type() == get32(d, 0)) & (m.is_exe_name() == (get32(d, 0) == 1)) & (m.is_unicode() == uni), "miscellaneous data");
    sym_assert(eqs(m.get_data_ansi(), txt), "ANSI text"); bool e = m.get_data_unicode().size() == w.size(); for (size_t k = 0; e && k < w.size(); k++) e = e & (m.get_data_unicode()[k] == w[k]); sym_assert(e, "Unicode text"); sym_reach("misc");
}
// ---- symbols
struct Sym { uint32_t index, cls, sect, rva; uint16_t type; bool file; std::string name; };
static void symbols(unsigned n, bool lng)
{
    uint32_t first = 32 + 4 * sym_choose(2, "gap"); std::string d = sym_str(32, "header"); put32(d, 0, n); put32(d, 4, first); d.resize(first, 'g'); std::vector<Sym> want; std::string strs("\x14\0\0\0", 4); strs += sym_name(3, "long1") + std::string(1, 0) + sym_name(9, "long2") + std::string(1, 0); size_t base = d.size(); d.resize(base + 18 * n, 0);
    for (unsigned i = 0; i < n;) {
        unsigned left = n - i - 1, aux = left ? sym_choose(left + 1, "aux") : 0, k = sym_choose(4, "class"); size_t o = base + 18 * i; symbytes(d, o, 18 * (aux + 1), "symbol"); d[o + 17] = aux; Sym s; s.index = i; s.sect = s.rva = 0; s.file = false; s.type = get16(d, o + 14); int16_t sect = get16(d, o + 12); bool reported; static const unsigned C[3] = { 0x67, 3, 2 }; if (k < 3) d[o + 16] = s.cls = C[k]; else { uint8_t c = d[o + 16]; sym_assume((c != 0x67) & (c != 3) & (c != 2)); s.cls = 0; }
        if (k == 0) { reported = true; s.file = true; s.name = d.substr(o + 18, 18 * aux); } else if (k == 1) reported = aux == 0 && sym_concretize(sect == 1); else if (k == 2) reported = sym_concretize(((s.type & 0x30) == 0x20) & (sect > 0)); else reported = false;
        if (k) { unsigned nm = lng ? sym_choose(3, "name") : 2; if (nm < 2) { put32(d, o, 0); put32(d, o + 4, nm ? 8 : 4); s.name = nm ? std::string(strs, 8, 9) : std::string(strs, 4, 3); } else { sym_assume(get32(d, o) != 0); if (reported) { unsigned z = sym_choose(lng ? 3 : 2, "shortlen"); unsigned q = z == 0 ? 8 : z == 1 ? 3 : 1; bool ok = true; for (unsigned j = 0; j < q; j++) ok = ok & (d[o + j] != 0); sym_assume(ok); if (q < 8) d[o + q] = 0; s.name = d.substr(o, q); } } s.sect = (uint32_t)(int32_t)sect; s.rva = get32(d, o + 8); }
        else if (aux) { unsigned z = sym_choose(3, "filelen"); unsigned q = z == 0 ? 18 * aux : z == 1 ? 5 : 18 * aux - 1; sym_assume(d[o + 18 + q - 1] != 0); for (unsigned j = q; j < 18 * aux; j++) d[o + 18 + j] = 0; s.name = d.substr(o + 18, q); }
        if (reported) want.push_back(s); i += 1 + aux;
    }
    d += strs; std::string f = withdata(1, d, 0, 0); pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == 1, "one entry"); if (l.size() != 1) return; debug_info over; debug_info e = moved(l[0], over); sym_assert(fields(e, f, 0x200), "fields of an entry"); sym_assert(e.get_advanced_info_type() == debug_info::advanced_info_coff, "kind of information"); only(e, COFF); coff_debug_info c = adv<coff_debug_info>(e);
    sym_assert((c.get_number_of_symbols() == n) & (c.get_lva_to_first_symbol() == first) & (c.get_number_of_line_numbers() == get32(d, 8)) & (c.get_lva_to_first_line_number() == get32(d, 12)) & (c.get_rva_to_first_byte_of_code() == get32(d, 16)) & (c.get_rva_to_last_byte_of_code() == get32(d, 20)) & (c.get_rva_to_first_byte_of_data() == get32(d, 24)) & (c.get_rva_to_last_byte_of_data() == get32(d, 28)), "symbol header");
    const coff_debug_info::coff_symbols_list& g = c.get_symbols(); sym_assert(g.size() == want.size(), "the file, static and function symbols are listed"); if (g.size() != want.size()) return; for (size_t i = 0; i < g.size(); i++) { const Sym& s = want[i]; sym_assert((g[i].get_index() == s.index) & (g[i].get_storage_class() == s.cls) & (g[i].get_type() == s.type) & (g[i].is_file() == s.file) & (g[i].get_rva() == s.rva) & ((uint16_t)g[i].get_section_number() == (uint16_t)s.sect), "symbol"); sym_assert(eqs(g[i].get_symbol(), s.name), "symbol name"); } sym_reach("symbols");
}
extern "C" void c26_symbols1() { symbols(sym_choose(2, "n"), true); }
extern "C" void c26_symbols2() { symbols(2, true); }
extern "C" void c26_symbols3() { symbols(3, false); }
// ---- exception table
extern "C" void c26_exceptions()
{
    unsigned n = 1 + sym_choose(3, "entries"), extra = sym_choose(3, "extra"); uint32_t off, size = 12 * (n + (extra == 1)), at = place(size, off); std::string f = mkfile(true, 3, at, size); uint32_t u = 0x3c0 - (off >= 0x380 ? 0x100 : 0); if (off + size + 12 <= 0x400 && extra == 2) { symbytes(f, off + size, 12, "behind"); } symbytes(f, u, 24, "unwind");
    uint32_t uo[3]; for (unsigned i = 0; i < n; i++) { uint32_t o = off + 12 * i; symbytes(f, o, 8, "function"); sym_assume((get32(f, o) != 0) & (get32(f, o) <= get32(f, o + 4))); uo[i] = u + 4 * sym_choose(n < 3 ? 4 : 2, "unwindat"); put32(f, o + 8, uo[i] - 0x200 + 0x1000); }
    pe_base p = open(f); exception_entry_list l = get_exception_directory_data(p); sym_assert(l.size() == n, "as many entries as the directory has"); if (l.size() != n) return;
    for (unsigned i = 0; i < n; i++) { uint32_t o = off + 12 * i, w = get32(f, uo[i]); const exception_entry& e = l[i]; sym_assert((e.get_begin_address() == get32(f, o)) & (e.get_end_address() == get32(f, o + 4)) & (e.get_unwind_info_address() == get32(f, o + 8)), "addresses"); sym_assert((e.get_unwind_info_version() == (w & 7)) & (e.get_flags() == ((w >> 3) & 31)) & (e.has_exception_handler() == ((w >> 3 & 1) != 0)) & (e.has_termination_handler() == ((w >> 4 & 1) != 0)) & (e.is_chaininfo() == ((w >> 5 & 1) != 0)) & (e.get_size_of_prolog() == (w >> 8 & 255)) & (e.get_number_of_unwind_slots() == (w >> 16 & 255)) & (e.get_frame_pointer_register_number() == (w >> 24 & 15)) & (e.uses_frame_pointer() == ((w >> 24 & 15) != 0)) & (e.get_scaled_rsp_offset() == (w >> 28)), "unwind information"); } sym_reach("exceptions");
}
extern "C" void c26_badexceptions() { std::string f = mkfile(true, 3, 0x1000, 24); symbytes(f, 0x200, 24, "table"); put32(f, 0x208, 0x1100); put32(f, 0x214, 0x1100); sym_assume((get32(f, 0x200) != 0) & (get32(f, 0x20c) != 0)); pe_base p = open(f); bool bad = sym_concretize((get32(f, 0x200) > get32(f, 0x204)) | (get32(f, 0x20c) > get32(f, 0x210))); sym_assert(THROWS(get_exception_directory_data(p)) == bad, "functions that end before they begin are refused"); sym_reach("bad"); }
// ---- .NET
extern "C" void c26_dotnet()
{
    uint32_t off, at = place(72, off); std::string f = mkfile(sym_choose(2, "pe64"), 14, at, sym_choose(2, "size") ? 72 : 1); symbytes(f, off, 72, "header"); pe_base p = open(f); basic_dotnet_info d = get_basic_dotnet_info(p); std::string h = f.substr(off, 72); uint32_t fl = get32(h, 16);
    sym_assert((d.get_major_runtime_version() == get16(h, 4)) & (d.get_minor_runtime_version() == get16(h, 6)) & (d.get_rva_of_metadata() == get32(h, 8)) & (d.get_size_of_metadata() == get32(h, 12)) & (d.get_flags() == fl) & (d.get_entry_point_rva_or_token() == get32(h, 20)) & (d.get_rva_of_resources() == get32(h, 24)) & (d.get_size_of_resources() == get32(h, 28)) & (d.get_rva_of_strong_name_signature() == get32(h, 32)) & (d.get_size_of_strong_name_signature() == get32(h, 36)), "header");
    sym_assert((d.get_rva_of_code_manager_table() == get32(h, 40)) & (d.get_size_of_code_manager_table() == get32(h, 44)) & (d.get_rva_of_vtable_fixups() == get32(h, 48)) & (d.get_size_of_vtable_fixups() == get32(h, 52)) & (d.get_rva_of_export_address_table_jumps() == get32(h, 56)) & (d.get_size_of_export_address_table_jumps() == get32(h, 60)) & (d.get_rva_of_managed_native_header() == get32(h, 64)) & (d.get_size_of_managed_native_header() == get32(h, 68)), "header"); sym_assert((d.is_il_only() == ((fl & 1) != 0)) & (d.is_32bit_required() == ((fl & 2) != 0)) & (d.is_il_library() == ((fl & 4) != 0)) & (d.is_native_entry_point() == ((fl & 16) != 0)), "flags"); sym_reach("dotnet");
}
// ---- rich header: some bytes, the records masked with the key, the end mark and the key, some bytes
static void rich(unsigned n, unsigned before, unsigned after)
{
    uint32_t key = sym_u32("key"); std::vector<uint32_t> v; std::string s = sym_str(before, "before"); size_t dans = s.size(); s.resize(dans + 16 + 8 * n + 8); put32(s, dans, 0x536e6144 ^ key); for (int i = 1; i < 4; i++) put32(s, dans + 4 * i, key); for (unsigned i = 0; i < 2 * n; i++) { v.push_back(sym_u32("record")); put32(s, dans + 16 + 4 * i, v.back() ^ key); } size_t r = dans + 16 + 8 * n; put32(s, r, 0x68636952); put32(s, r + 4, key); s += sym_str(after, "after");
    bool ok = true; for (size_t i = 0; i < r; i++) ok = ok & (get32(s, i) != 0x68636952); for (size_t i = 0; i < dans; i++) ok = ok & ((get32(s, i) ^ key) != 0x536e6144); sym_assume(ok); pe_base p = mkimage(sym_choose(2, "pe64")); p.set_stub_overlay(s); rich_data_list l = get_rich_data(p); sym_assert(l.size() == n, "as many records as the header has"); if (l.size() != n) return; for (unsigned i = 0; i < n; i++) sym_assert((l[i].get_number() == v[2 * i] >> 16) & (l[i].get_version() == (v[2 * i] & 0xffff)) & (l[i].get_times() == v[2 * i + 1]), "record"); sym_reach("rich");
}
extern "C" void c26_rich() { rich(sym_choose(4, "records"), sym_choose(10, "before"), 0); }
extern "C" void c26_richtail() { rich(sym_choose(3, "records"), 4 * sym_choose(2, "before"), sym_choose(10, "after")); }
extern "C" void c26_richlong() { rich(8, 16, 8); }
// no records without both marks
extern "C" void c26_norich() { unsigned n = sym_choose(16, "len"); std::string s = sym_str(n, "stub"); bool has = false; for (unsigned i = 0; i + 4 <= n; i++) has = has | (get32(s, i) == 0x68636952); sym_assume(!has); pe_base p = mkimage(false); p.set_stub_overlay(s); sym_assert(get_rich_data(p).empty(), "no records without an end mark"); sym_reach("norich"); }
// ---- long tables and texts; everything concrete but a few fields
static std::string bigfile(bool pe64, unsigned dir, uint32_t rva, uint32_t size, uint32_t raw) { std::string f = mkfile(pe64, dir, rva, size); Layout l = mkLayout(pe64, 1, 16); f.resize(0x200 + raw, 0); unsigned o = l.sec(0); put32(f, o + S_VSIZE, raw); put32(f, o + S_RAWSIZE, raw); put32(f, l.lf + H_IMGSIZE, 0x1000 + raw); return f; }
extern "C" void c26_manyentries()
{
    static const unsigned N[3] = { 255, 256, 300 }; unsigned n = N[sym_choose(3, "entries")]; std::string f = bigfile(sym_choose(2, "pe64"), 6, 0x1000, 28 * n, 0x4000); for (unsigned i = 0; i < n; i++) { uint32_t o = 0x200 + 28 * i; for (unsigned k = 0; k < 7; k++) put32(f, o + 4 * k, 0x01010101 * k + i); put32(f, o + 12, 3); } symbytes(f, 0x200 + 28 * 254, 12, "entry254"); symbytes(f, 0x200 + 28 * (n - 1), 12, "last");
    pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == n, "as many entries as the directory has"); if (l.size() != n) return; for (unsigned i = 0; i < n; i++) sym_assert(fields(l[i], f, 0x200 + 28 * i), "fields of an entry"); sym_reach("many entries");
}
extern "C" void c26_longtexts()
{
    static const unsigned N[6] = { 127, 254, 255, 256, 1000, 0x10001 }; unsigned n = N[sym_choose(6, "length")], k = sym_choose(4, "kind"); std::string t(n, 'p'); t[0] = sym_name(1, "first")[0]; t[n - 1] = sym_name(1, "last")[0]; std::string d; uint32_t type = 2; if (k < 2) d = pdb(k, t, "tail"); else { type = 4; d = sym_str(12, "header"); put32(d, 4, 12 + (k == 3 ? 2 * n : n)); d[8] = k == 3; if (k == 2) d += t; else for (unsigned i = 0; i < n; i++) { d.push_back(t[i]); d.push_back(0); } }
    std::string f = mkfile(false, 6, 0x1000, 28); entry(f, 0, type, f.size(), d.size()); f += d; pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == 1, "one entry"); if (l.size() != 1) return; debug_info over; debug_info i = moved(l[0], over);
    if (k == 0) sym_assert(eqs(adv<pdb_2_0_info>(i).get_pdb_file_name(), t), "PDB file name"); else if (k == 1) sym_assert(eqs(adv<pdb_7_0_info>(i).get_pdb_file_name(), t), "PDB file name"); else { misc_debug_info m = adv<misc_debug_info>(i); sym_assert(m.is_unicode() == (k == 3), "kind of text"); if (k == 2) sym_assert(eqs(m.get_data_ansi(), t), "ANSI text"); else { const std::wstring& w = m.get_data_unicode(); bool e = w.size() == n; for (unsigned j = 0; e && j < n; j++) e = e & (w[j] == (unsigned char)t[j]); sym_assert(e, "Unicode text"); } } sym_reach("long text");
}
extern "C" void c26_manysymbols()
{
    static const unsigned N[4] = { 255, 256, 257, 300 }, G[4] = { 4, 250, 0xfffe, 0x10005 }; unsigned c = sym_choose(8, "case"), n = c < 4 ? N[c] : 256, gap = c < 4 ? 4 : G[c - 4]; std::string d = sym_str(32, "header"); put32(d, 0, n); put32(d, 4, 32); size_t base = 32; d.resize(base + 18 * n, 0); std::string strs(gap, 's'), longn; put32(strs, 0, 0); std::vector<std::string> want; std::vector<unsigned> idx; unsigned at = 0;
    if (c >= 4) { unsigned aux = 255 - (c & 1); size_t o = base; d[o + 16] = 0x67; d[o + 17] = (char)aux; std::string nm(18 * aux - 7, 'f'); nm[nm.size() - 1] = sym_name(1, "fileend")[0]; d.replace(o + 18, nm.size(), nm); want.push_back(nm); idx.push_back(0); at = 1 + aux; }
    for (; at < n; at++) { size_t o = base + 18 * at; d[o + 16] = 2; d[o + 12] = 1; d[o + 14] = 0x20; put32(d, o + 8, at * 16); if (at == n - 1 || at % 50 == 7) { put32(d, o, 0); put32(d, o + 4, strs.size()); std::string nm(at % 2 ? 9 : 300, 'l'); nm[8] = sym_name(1, "long")[0]; strs += nm + std::string(1, 0); want.push_back(nm); } else { d[o] = 'a' + at % 26; d[o + 1] = 'A' + at / 26; want.push_back(d.substr(o, 2)); } idx.push_back(at); }
    put32(strs, 0, strs.size()); d += strs; std::string f = mkfile(false, 6, 0x1000, 28); entry(f, 0, 1, f.size(), d.size()); f += d; pe_base p = open(f); debug_info_list l = get_debug_information(p); sym_assert(l.size() == 1, "one entry"); if (l.size() != 1) return; coff_debug_info ci = adv<coff_debug_info>(l[0]); const coff_debug_info::coff_symbols_list& g = ci.get_symbols(); sym_assert(g.size() == want.size(), "the file, static and function symbols are listed"); if (g.size() != want.size()) return;
    for (size_t i = 0; i < g.size(); i++) sym_assert(g[i].get_index() == idx[i] && g[i].get_rva() == (g[i].is_file() ? 0 : 16 * idx[i]) && eqs(g[i].get_symbol(), want[i]), "symbol and name"); sym_reach("many symbols");
}
extern "C" void c26_manyexceptions()
{
    static const unsigned N[3] = { 255, 256, 300 }; unsigned n = N[sym_choose(3, "entries")]; std::string f = bigfile(true, 3, 0x1000, 12 * n, 0x4000); for (unsigned i = 0; i < n; i++) { uint32_t o = 0x200 + 12 * i; put32(f, o, 0x1000 + 16 * i); put32(f, o + 4, 0x1008 + 16 * i); put32(f, o + 8, 0x4000 + 4 * i); put32(f, 0x3200 + 4 * i, 0x01010101 * (i & 255) | 1); } symbytes(f, 0x3200 + 4 * 254, 4, "unwind254"); symbytes(f, 0x3200 + 4 * (n - 1), 4, "last");
    pe_base p = open(f); exception_entry_list l = get_exception_directory_data(p); sym_assert(l.size() == n, "as many entries as the directory has"); if (l.size() != n) return; for (unsigned i = 0; i < n; i++) { uint32_t w = get32(f, 0x3200 + 4 * i); const exception_entry& e = l[i]; sym_assert((e.get_begin_address() == 0x1000 + 16 * i) & (e.get_end_address() == 0x1008 + 16 * i) & (e.get_unwind_info_address() == 0x4000 + 4 * i) & (e.get_unwind_info_version() == (w & 7)) & (e.get_flags() == ((w >> 3) & 31)) & (e.get_size_of_prolog() == (w >> 8 & 255)) & (e.get_number_of_unwind_slots() == (w >> 16 & 255)) & (e.get_frame_pointer_register_number() == (w >> 24 & 15)) & (e.get_scaled_rsp_offset() == (w >> 28)), "exception entry"); } sym_reach("many exceptions");
}
extern "C" void c26_manyrich()
{
    static const unsigned N[4] = { 31, 255, 256, 300 }; unsigned n = N[sym_choose(4, "records")], before = sym_choose(2, "before") * 300; uint32_t key = sym_u32("key"); sym_assume((key & 0xffff) == 0x1234); std::string s(before, '.'); size_t dans = s.size(); s.resize(dans + 16 + 8 * n + 8); put32(s, dans, 0x536e6144 ^ key); for (int i = 1; i < 4; i++) put32(s, dans + 4 * i, key); std::vector<uint32_t> v; for (unsigned i = 0; i < 2 * n; i++) { v.push_back(0x20001 * (i + 1)); put32(s, dans + 16 + 4 * i, v[i] ^ key); } size_t r = dans + 16 + 8 * n; put32(s, r, 0x68636952); put32(s, r + 4, key);
    bool ok = true; for (size_t i = 0; i < r; i++) ok = ok & (get32(s, i) != 0x68636952); for (size_t i = 0; i < dans; i++) ok = ok & ((get32(s, i) ^ key) != 0x536e6144); sym_assume(ok); pe_base p = mkimage(sym_choose(2, "pe64")); p.set_stub_overlay(s); rich_data_list l = get_rich_data(p); sym_assert(l.size() == n, "as many records as the header has"); if (l.size() != n) return; for (unsigned i = 0; i < n; i++) sym_assert((l[i].get_number() == v[2 * i] >> 16) & (l[i].get_version() == (v[2 * i] & 0xffff)) & (l[i].get_times() == v[2 * i + 1]), "record"); sym_reach("many rich");
}
