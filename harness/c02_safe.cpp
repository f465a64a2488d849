// C02: reading import, export, relocation, TLS and load-config data is memory safe.
#include "any.h"
#include "pe_imports.h"
#include "pe_exports.h"
#include "pe_relocations.h"
#include "pe_tls.h"
#include "pe_load_config.h"
static const Any PLAIN[2] = { { false, 0x200, 0x200, 0x200 }, { true, 0x200, 0x200, 0x200 } };
static std::string words(const uint32_t* w, unsigned n) { std::string s(4 * n, 0); for (unsigned i = 0; i < n; i++) put32(s, 4 * i, w[i]); return s; }
// puts the bytes at the address, as far as they are in the section's data or in the headers behind the section table
static void place(std::string& f, uint32_t rva, const std::string& d) { uint32_t o = any_off(rva); for (uint32_t i = 0; i < d.size(); i++) if (o + i >= 0x180 && o + i < f.size() && rva + i >= rva) f[o + i] = d[i]; }
static uint32_t anysize(uint32_t entry) { uint32_t S[6] = { 0, 1, entry, entry + 1, 0x400, 0xffffffff }; return S[sym_choose(6, "dirsize")]; }
// ---- imports
static void readimports(const std::string& f) { pe_base p = any_open(f); imported_functions_list l; bool th = THROWS(l = get_imported_functions(p)); uint32_t h = 0; if (!th) for (size_t i = 0; i < l.size(); i++) { h += l[i].get_name().size(); const import_library::imported_list& v = l[i].get_imported_functions(); for (size_t j = 0; j < v.size(); j++) h += v[j].get_name().size() + v[j].get_hint(); } any_sink = h; sym_reach(th ? "refused" : "read"); }
// library names, thunk tables and function names stand in the headers, as does the directory
static void someimports(std::string& f, bool pe64) { place(f, 0x1a8, std::string("k.dll\0", 6)); place(f, 0x1ae, std::string("\1\0fn\0", 5)); uint32_t w[4] = { 0x1ae, pe64 ? 0u : 0x80000007, 0, 0 }; place(f, 0x1b8, words(w, 4)); }
static std::string descriptor(uint32_t lookup, uint32_t name, uint32_t iat) { uint32_t w[5] = { lookup, sym_u32("stamp"), sym_u32("chain"), name, iat }; return words(w, 5); }
// the directory anywhere, up to three libraries
extern "C" void c02_importdir() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); uint32_t rva = any_rva(a, 20, "rva"); std::string f = any_file(a, 1, rva, anysize(20)); someimports(f, pe64); std::string d; unsigned n = sym_choose(4, "libraries"); for (unsigned i = 0; i < n; i++) d += descriptor(i == 1 ? 0 : 0x1b8, 0x1a8, 0x1b8); d += descriptor(sym_u32("last"), 0, sym_u32("last")); place(f, rva, d); readimports(f); }
// the library's name, lookup table or address table at every place
extern "C" void c02_importname() { Any a = geometry(false); std::string f = any_file(a, 1, 0x180, 40); someimports(f, false); uint32_t at = any_rva(a, 2, "name"); place(f, 0x180, descriptor(0, at, 0x1b8)); any_bytes(f, at, 3, "text"); readimports(f); }
extern "C" void c02_importthunks() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 1, 0x180, 40); someimports(f, pe64); uint32_t w = pe64 ? 8 : 4, at = any_rva(a, w, "table"); unsigned which = sym_choose(3, "which"); place(f, 0x180, descriptor(which == 0 ? at : which == 1 ? 0x1b8 : 0, 0x1a8, which == 0 ? 0x1b8 : at)); if (sym_choose(2, "full")) { std::string t; for (int i = 0; i < 3; i++) { std::string e = sym_str(w, "entry"); e[w - 1] |= 0x80; t += e; } place(f, at, t); } readimports(f); }
// the function's hint and name at every place, 64-bit entries with high bits
extern "C" void c02_importfunc() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 1, 0x180, 40); someimports(f, pe64); place(f, 0x180, descriptor(0, 0x1a8, 0x1b8)); uint32_t at = any_rva(a, 2 + sym_choose(3, "cut"), "function"); std::string t(24, 0); put32(t, 0, at & (pe64 ? ~0u : 0x7fffffff)); if (pe64) { uint32_t hi = sym_u32("high"); sym_assume((hi < 2) | (hi == 0x40000000) | (hi == 0x7fffffff)); put32(t, 4, hi); } place(f, 0x1b8, t); any_bytes(f, at, 5, "text"); readimports(f); }
// ---- exports
static void readexports(const std::string& f) { pe_base p = any_open(f); exported_functions_list l; export_info info; bool with = sym_choose(2, "info"); bool th = THROWS(l = with ? get_exported_functions(p, info) : get_exported_functions(p)); uint32_t h = info.get_name().size(); if (!th) for (size_t i = 0; i < l.size(); i++) h += l[i].get_name().size() + l[i].get_forwarded_name().size(); any_sink = h; sym_reach(th ? "refused" : "read"); }
static std::string exportdir(uint32_t name, uint32_t nf, uint32_t nn, uint32_t functions, uint32_t names, uint32_t ordinals) { uint32_t w[10] = { sym_u32("flags"), sym_u32("stamp"), sym_u32("version"), name, sym_u32("base"), nf, nn, functions, names, ordinals }; return words(w, 10); }
// the directory at every place and of every size
extern "C" void c02_exportdir() { Any a = geometry(sym_choose(2, "pe64")); uint32_t rva = any_rva(a, 40, "rva"); std::string f = any_file(a, 0, rva, anysize(40)); place(f, rva, exportdir(0x1a8, 1, 1, 0x1b0, 0x1b8, 0x1c0)); place(f, 0x1a8, std::string("d\0", 2)); uint32_t F[2] = { sym_u32("function"), 0x1a8 }; sym_assume((F[0] < 3) | (F[0] - rva - 3 < 3) | (F[0] >= 0xfffffffe)); F[0] = (uint32_t)sym_concretize(F[0]); place(f, 0x1b0, words(F, 1)); place(f, 0x1b8, words(F + 1, 1)); place(f, 0x1c0, std::string(2, 0)); readexports(f); }
// the name, the three tables, the function's name or the forwarder at every place
extern "C" void c02_exportparts()
{
    Any a = geometry(false); unsigned which = sym_choose(6, "which"); static const uint32_t N[6] = { 2, 4, 4, 2, 2, 2 }; uint32_t at = any_rva(a, N[which] * (which == 1 || which == 2 || which == 3 ? 2 : 1), "place"); std::string f = any_file(a, 0, 0x180, which == 5 ? 0xfffff000 : 40);
    uint32_t w[4] = { which == 5 ? at : 1, 1, which == 4 ? at : 0x1a8, 0x1a8 }; place(f, 0x1b0, words(w, 2)); place(f, 0x1b8, words(w + 2, 2)); uint32_t o = 0x00010000; place(f, 0x1c0, words(&o, 1)); place(f, 0x1a8, std::string("d\0", 2));
    std::string d = exportdir(which == 0 ? at : 0x1a8, 2, 2, which == 1 ? at : 0x1b0, which == 2 ? at : 0x1b8, which == 3 ? at : 0x1c0); put32(d, 16, 0); place(f, 0x180, d);
    if (which == 0 || which >= 4) any_bytes(f, at, 3, "text"); else if (which == 3) any_bytes(f, at, 4, "ordinals"); else if (sym_choose(2, "filled")) { uint32_t v[2] = { 0x1a8, 0x1a8 }; place(f, at, words(v, 2)); } readexports(f);
}
// the counts of functions and names near every limit
extern "C" void c02_exportcounts() { uint32_t C[12] = { 0, 1, 2, 3, 0x50, 0x51, 0x10000, 0x3ffffffe, 0x3fffffff, 0x40000000, 0x80000001, 0xffffffff }; Any a = PLAIN[0]; std::string f = any_file(a, 0, 0x1000, 40); uint32_t nf = C[sym_choose(12, "functions")], nn = C[sym_choose(12, "names")]; uint32_t P[4] = { 0x11f8, 0, 0xfffffffc, 0x1100 }; uint32_t p1 = P[sym_choose(4, "place")], p2 = P[sym_choose(4, "place")], p3 = P[sym_choose(4, "place")]; if (p1 == 0x1a8 && p2 == p1 && p3 == p1) p1 = 0x10c0; std::string d = exportdir(0x1080, nf, nn, p1, p2, p3); place(f, 0x1000, d); std::string t = std::string("n\0", 2); place(f, 0x1080, t); readexports(f); }
// ---- relocations
static void readrelocs(const std::string& f, bool all) { pe_base p = any_open(f); relocation_table_list l; bool th = THROWS(l = get_relocations(p, all)); any_sink = l.size(); sym_reach(th ? "refused" : "read"); }
extern "C" void c02_relocdir() { Any a = geometry(sym_choose(2, "pe64")); uint32_t rva = any_rva(a, 8, "rva"); std::string f = any_file(a, 5, rva, anysize(8)); uint32_t w[2] = { sym_u32("page"), 8 }; place(f, rva, words(w, 2) + words(w, 2)); readrelocs(f, sym_choose(2, "absolute")); }
// block sizes up to the end of the section and beyond, then a second one
extern "C" void c02_relocsize() { uint32_t S[12] = { 0, 1, 2, 7, 8, 9, 10, 16, 30, 32, 34, 0xffffff00 }, D[5] = { 1, 8, 12, 40, 0xffffffff }; unsigned k = sym_choose(12, "size"), m = sym_choose(12, "second"), ds = sym_choose(5, "dirsize"); uint32_t e[3] = { 0xffffffde, 0xffffffe0, 0xffffefff }; uint32_t sz = k == 11 ? e[sym_choose(3, "huge")] : S[k]; bool edge = sym_choose(2, "edge"); uint32_t rva = edge ? 0x11e0 : 0x1000; std::string f = any_file(PLAIN[0], 5, rva, D[ds]); place(f, rva, std::string(32, "\0\x42"[sym_choose(2, "filler")])); uint32_t w[2] = { sym_u32("page"), sz }; if (sz >= 2 && sz < 32 && sz % 2 == 0) { uint32_t w2[2] = { sym_u32("page"), S[m] }; place(f, rva + sz, words(w2, 2)); } place(f, rva, words(w, 2)); readrelocs(f, sym_choose(2, "absolute")); }
// rebasing by arbitrary tables
extern "C" void c02_rebase() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 5, 0x1000, 12); pe_base p = any_open(f); uint32_t at = any_rva(a, sym_choose(2, "wide") ? 8 : 4, "field"); relocation_table_list l(1); uint16_t e = sym_u16("entry"); sym_assume((e & 0xfff) < 3); e = (uint16_t)((e & 0xf000) | (unsigned)sym_concretize(e & 0xfff)); l[0].set_rva(at - (e & 0xfff)); relocation_entry en(e); l[0].add_relocation(en); bool th = THROWS(rebase_image(p, l, sym_u64("base"))); sym_reach(th ? "refused" : "rebased"); }
// ---- TLS
static void readtls(const std::string& f) { pe_base p = any_open(f); uint32_t n = 0; bool th = THROWS(n = get_tls_info(p).get_raw_data().size()); any_sink = n; sym_reach(th ? "refused" : "read"); }
static void word(std::string& d, bool pe64, unsigned i, uint64_t v) { if (pe64) put64(d, 8 * i, v); else put32(d, 4 * i, (uint32_t)v); }
extern "C" void c02_tlsdir() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); uint32_t rva = any_rva(a, pe64 ? 40 : 24, "rva"); std::string f = any_file(a, 9, rva, anysize(24)); std::string d = sym_str(40, "tls"); word(d, pe64, 0, 0x401180); word(d, pe64, 1, 0x401184); word(d, pe64, 3, 0); place(f, rva, d); readtls(f); }
// raw data from any place to any place, any image base
extern "C" void c02_tlsdata() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 9, 0x180, 24); uint64_t bases[3] = { 0, 0x400000, pe64 ? 0xffffffffffff0000 : 0xffff0000 }, b = bases[sym_choose(3, "base")]; if (pe64) put64(f, 64 + 48, b); else put32(f, 64 + 52, (uint32_t)b); std::string d(40, 0); uint32_t at = any_rva(a, 4, "start"); uint64_t L[6] = { 0, 1, 4, (uint64_t)any_end(a) - at, 0u - at, 0xfffffffffffffff0 }, M[4] = { 0, 1, 0x18000000, 0x18000004 }; uint64_t s = b + at; if (pe64) s += M[sym_choose(3, "high")] & 0x18000000; unsigned k = sym_choose(8, "length"); uint64_t e = k == 7 ? 0 : s + (k == 6 ? M[2 + sym_choose(2, "over")] : L[k]); word(d, pe64, 0, s); word(d, pe64, 1, e); word(d, pe64, 2, sym_u64("index")); place(f, 0x180, d); readtls(f); }
extern "C" void c02_tlscallbacks() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 9, 0x180, 24); uint64_t bases[3] = { 0, 0x400000, pe64 ? 0xffffffffffff0000 : 0xffff0000 }, b = bases[sym_choose(3, "base")]; if (pe64) put64(f, 64 + 48, b); else put32(f, 64 + 52, (uint32_t)b); std::string d(40, 0); unsigned w = pe64 ? 8 : 4; uint32_t at = any_rva(a, w, "table"); word(d, pe64, 3, b + at); place(f, 0x180, d); any_bytes(f, at, 2 * w, "callbacks"); readtls(f); }
// ---- load configuration
static void readconfig(const std::string& f) { pe_base p = any_open(f); uint32_t n = 0; bool th = THROWS({ image_config_info c = get_image_config(p); n = c.get_se_handler_rvas().size() + c.get_lock_prefix_rvas().size(); }); any_sink = n; sym_reach(th ? "refused" : "read"); }
static unsigned cl(bool pe64) { return pe64 ? 112 : 72; }
static void config(std::string& d, bool pe64, uint64_t prefixes, uint64_t handlers, uint64_t count) { if (pe64) { put64(d, 40, prefixes); put64(d, 96, handlers); put64(d, 104, count); } else { put32(d, 32, (uint32_t)prefixes); put32(d, 64, (uint32_t)handlers); put32(d, 68, (uint32_t)count); } }
extern "C" void c02_configdir() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); uint32_t rva = any_rva(a, cl(pe64), "rva"); std::string f = any_file(a, 10, rva, anysize(cl(pe64))); std::string d = sym_str(cl(pe64), "config"); config(d, pe64, 0, 0x401180, sym_choose(3, "handlers")); put32(f, 64 + (pe64 ? 48 : 52), 0x400000); place(f, rva, d); readconfig(f); }
// tables at any place, any image base, and any count of handlers
extern "C" void c02_confightables() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 10, 0x1010, cl(pe64)); uint64_t bases[3] = { 0, 0x400000, pe64 ? 0xffffffffffff0000 : 0xffff0000 }, b = bases[sym_choose(3, "base")]; if (pe64) put64(f, 64 + 48, b); else put32(f, 64 + 52, (uint32_t)b); std::string d = sym_str(cl(pe64), "config"); put32(d, 0, cl(pe64) + sym_choose(2, "larger")); uint32_t at = any_rva(a, 4, "table"); uint64_t C[8] = { 0, 1, 2, 0x3ffffffe, 0x3fffffff, 0xffffffff, 0x4000000000000001, 0xffffffffffffffff }; config(d, pe64, 0, b + at, C[sym_choose(pe64 ? 8 : 6, "count")]); place(f, 0x1010, d); any_bytes(f, at, 8, "handlers"); readconfig(f); }
extern "C" void c02_configptables() { bool pe64 = sym_choose(2, "pe64"); Any a = geometry(pe64); std::string f = any_file(a, 10, 0x1010, cl(pe64)); uint64_t bases[3] = { 0, 0x400000, pe64 ? 0xffffffffffff0000 : 0xffff0000 }, b = bases[sym_choose(3, "base")]; if (pe64) put64(f, 64 + 48, b); else put32(f, 64 + 52, (uint32_t)b); std::string d = sym_str(cl(pe64), "config"); put32(d, 0, cl(pe64)); uint32_t at = any_rva(a, 4, "table"); config(d, pe64, b + at, 0, 0); place(f, 0x1010, d); unsigned w = pe64 ? 8 : 4; any_bytes(f, at, 2 * w, "prefixes"); readconfig(f); }
