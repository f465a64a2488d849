// C03: reading debug, exception, bound-import, .NET and rich data is memory safe.
#include "any.h"
#include "pe_debug.h"
#include "pe_exception_directory.h"
#include "pe_dotnet.h"
#include "pe_rich_data.h"
#include "pe_bound_import.h"
// the directory anywhere, of any size near the interesting ones, with arbitrary entries; the raw data is read from the file
static uint32_t anysize(uint32_t entry) { uint32_t S[8] = { 0, 1, entry, entry + 1, 2 * entry, 3 * entry, 0x400, 0xffffffff }; return S[sym_choose(8, "dirsize")]; }
static void use(const debug_info_list& l) { uint32_t h = 0; for (size_t i = 0; i < l.size(); i++) { h += l[i].get_type(); if (l[i].get_advanced_info_type() == debug_info::advanced_info_coff) { coff_debug_info c = l[i].get_advanced_debug_info<coff_debug_info>(); for (size_t j = 0; j < c.get_symbols().size(); j++) h += c.get_symbols()[j].get_symbol().size(); } if (l[i].get_advanced_info_type() == debug_info::advanced_info_misc) h += l[i].get_advanced_debug_info<misc_debug_info>().get_data_ansi().size(); } any_sink = h; }
extern "C" void c03_debugdir()
{
    Any a = geometry(sym_choose(2, "pe64")); uint32_t rva = any_rva(a, 28, "rva"), size = anysize(28); std::string f = any_file(a, 6, rva, size); any_bytes(f, rva, 28 * 3, "entries"); bool ok = true; for (int i = 0; i < 3; i++) { uint32_t o = any_off(rva) + 28 * i; uint32_t t = o + 16 <= f.size() ? get32(f, o + 12) : 0; ok = ok & (t != 1) & (t != 2) & (t != 4); } sym_assume(ok); pe_base p = any_open(f); debug_info_list l; bool th = THROWS(l = get_debug_information(p)); sym_reach(th ? "refused" : "read");
}
// raw data at any place of the file and behind it
extern "C" void c03_debugread()
{
    Any a = geometry(false, 4); std::string f = any_file(a, 6, ANY_VA, 56); static const uint32_t T[3] = { 1, 2, 4 }; symbytes(f, 0x200, 56, "entries"); bool two = sym_choose(2, "two"); uint32_t n = f.size(), P[5] = { 0, 0x1f0, n - 1, n, 0xffffffff }; for (int i = 0; i < 1 + two; i++) { uint32_t o = 0x200 + 28 * i, p = P[sym_choose(5, "pointer")]; uint32_t L[6] = { 0, 1, 40, n - p, n - p + 1, 0x100000 }; put32(f, o + 12, T[sym_choose(3, "type")]); put32(f, o + 24, p); put32(f, o + 16, L[i ? 2 : sym_choose(p < n ? 6 : 3, "length")]); } if (!two) put32(f, 0x200 + 28 + 24, 0);
    pe_base p = any_open(f); debug_info_list l; bool th = THROWS(l = get_debug_information(p)); if (!th) use(l); sym_reach(th ? "refused" : "read");
}
static std::string withdata(const std::string& d, uint32_t type, uint32_t len) { Any a = { false, 0x200, 0x200, 0x200 }; std::string f = any_file(a, 6, ANY_VA, 28); uint32_t at = f.size(); put32(f, 0x20c, type); put32(f, 0x210, len); put32(f, 0x218, at); return f + d + "end"; }
static void detail(const std::string& d, uint32_t type) { std::string f = withdata(d, type, d.size()); pe_base p = any_open(f); debug_info_list l; bool th = THROWS(l = get_debug_information(p)); if (!th) use(l); sym_reach(th ? "refused" : "read"); }
// arbitrary raw data of every length
extern "C" void c03_codeview() { detail(sym_str(sym_choose(32, "len"), "data"), 2); }
extern "C" void c03_misc() { unsigned n = sym_choose(21, "len"); std::string d = sym_str(n, "data"); if (n >= 8) { uint32_t v = get32(d, 4); unsigned w = sym_choose(3, "window"); if (w == 0) { sym_assume(v < 32); put32(d, 4, (uint32_t)sym_concretize(v)); } else if (w == 1) sym_assume(v >= 32 && v < 0xffffff00); else { sym_assume(v >= 0xffffff00); put32(d, 4, (uint32_t)sym_concretize(v)); } } detail(d, 4); }
// count of symbols and place of the first one near the borders
static void coff(unsigned n, uint32_t count) { std::string d = sym_str(n, "data"); uint32_t e = n - 18 * count, F[9] = { 0, 14, 31, 32, e - 1, e, e + 1, 0x80000000, 0u - 18 * count }; uint32_t first = F[sym_choose(9, "first")]; if (n >= 8) { put32(d, 0, count); put32(d, 4, first); } detail(d, 1); }
extern "C" void c03_coff() { static const unsigned N[7] = { 0, 4, 31, 32, 49, 50, 54 }; unsigned n = N[sym_choose(7, "len")]; coff(n, sym_choose(3, "count")); }
// two symbols; the first with an arbitrary class, type, section and name, the second of a class that is reported
extern "C" void c03_coff2() { std::string d = sym_str(68, "data"); put32(d, 0, 2); put32(d, 4, 32); static const unsigned C[3] = { 0x67, 3, 2 }; unsigned n = sym_choose(3, "cut"); if (sym_choose(2, "swap")) { d[48] = C[sym_choose(3, "class")]; d[32] = d[33] = 0; } else { d[66] = C[sym_choose(3, "class")]; d[50] = d[51] = 0; } d.resize(68 - n + (n == 2 ? 8 : 0), 1); detail(d, 1); }
extern "C" void c03_coffcount() { std::string d = sym_str(40, "data"); uint32_t c = get32(d, 0), first = get32(d, 4); static const uint32_t B[4] = { 0x0e38e380, 0x1c71c718, 0x80000000, 0xffffffe0 }; uint32_t b = B[sym_choose(4, "count")]; sym_assume(c - b < 32); put32(d, 0, (uint32_t)sym_concretize(c)); sym_assume((first <= 40) | (first >= 0xfffffff0)); detail(d, 1); }
// ---- exception directory
extern "C" void c03_exceptions() { Any a = geometry(true); uint32_t rva = any_rva(a, 12, "rva"), size = anysize(12); std::string f = any_file(a, 3, rva, size); any_bytes(f, rva, 36, "entries"); pe_base p = any_open(f); exception_entry_list l; bool th = THROWS(l = get_exception_directory_data(p)); sym_reach(th ? "refused" : "read"); }
// ---- .NET header
extern "C" void c03_dotnet() { Any a = geometry(sym_choose(2, "pe64")); uint32_t rva = any_rva(a, 72, "rva"); std::string f = any_file(a, 14, rva, sym_u32("size")); any_bytes(f, rva, 72, "header"); pe_base p = any_open(f); uint32_t fl = 0; bool th = THROWS(fl = get_basic_dotnet_info(p).get_flags()); if (!th) { any_sink = fl; } sym_reach(th ? "refused" : "read"); }
// ---- bound imports
extern "C" void c03_bound() { Any a = geometry(false); uint32_t rva = any_rva(a, 8, "rva"); unsigned n = sym_choose(6, "size"); uint32_t S[6] = { 0, 7, 8, 16, 24, 0xfffffff0 }; std::string f = any_file(a, 11, rva, S[n]); uint32_t o = any_off(rva), N[5] = { 0, 8, any_end(a) - rva - 1, any_end(a) - rva, 0xffff }; uint16_t C[3] = { 0, 2, 0xffff }; std::string t = sym_str(24, "table"); for (int i = 0; i < 3; i++) { put16(t, 8 * i + 2, 1); put16(t, 8 * i + 4, i ? 0x30 : N[sym_choose(5, "name")]); put16(t, 8 * i + 6, C[sym_choose(i ? 2 : 3, "refs")]); } for (uint32_t i = 0; i < 24; i++) if (o + i >= 0x180 && o + i < f.size()) f[o + i] = t[i]; pe_base p = any_open(f); bound_import_module_list l; bool th = THROWS(l = get_bound_import_module_list(p)); sym_reach(th ? "refused" : "read"); }
// ---- rich data: any DOS stub
static void stub(const std::string& s) { Any a = { false, 0x200, 0x200, 0x200 }; std::string f = any_file(a, 0, 0, 0); pe_base p = any_open(f); p.set_stub_overlay(s); rich_data_list l = get_rich_data(p); any_sink = l.size(); sym_reach("rich"); }
extern "C" void c03_rich() { stub(sym_str(sym_choose(14, "len"), "stub")); }
extern "C" void c03_richlong() { static const unsigned N[6] = { 20, 30, 31, 40, 47, 60 }; unsigned n = N[sym_choose(6, "len")]; std::string s = sym_str(n, "stub"); unsigned at = sym_choose(n - 3, "mark"); put32(s, at, 0x68636952); stub(s); }
