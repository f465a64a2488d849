// C01: opening an arbitrary byte stream is memory safe, answers, and fails only with library exceptions.
// The header spaces are those of the acceptance check (c05); here only the executor's own checks matter:
// every access in bounds, no division by zero, no foreign exception, bounded number of steps.
#include "psx.h"
#undef sym_assert
#define sym_assert(c, m) ((void)(c))
#include "c05_accept.cpp"
static void open_any(const std::string& file, bool from_mem, bool dbg)
{
    std::istringstream f(file);
    try { pe_base::get_pe_type(f); sym_reach("typed"); } catch (const pe_exception&) { sym_reach("no type"); }
    try {
        pe_base image(pe_factory::create_pe(f, from_mem, dbg)); sym_reach("opened"); if (image.get_image_sections().size()) sym_reach("opened with sections"); if (image.get_raw_debug_data_list().size()) sym_reach("debug data");
    } catch (const pe_exception&) { sym_reach("refused"); }
    sym_done();
}
extern "C" void c01_tiny()
{
    size_t n = sym_choose(14, "n") * 12; std::string file = sym_str(n, "file");
    if (n >= 64) { uint32_t lf = get32(file, 60); sym_assume((lf <= 4) | ((lf >= n - 8) & (lf <= n + 4)) | (lf >= 0xfffffff8u) | (lf == 0x7fffffff)); if (n >= 120) for (unsigned l = 0; l <= 4; l += 4) { uint32_t hs = get32(file, l + H_HDRSIZE); uint16_t ns = get16(file, l + H_NSEC); sym_assume((lf != l) | (hs <= 1) | (hs >= n - 1)); sym_assume((lf != l) | (ns == 0) | (ns > 0x60)); } }
    open_any(file, false, false);
}
extern "C" void c01_headers32() { headers(false); }
extern "C" void c01_headers64() { headers(true); }
extern "C" void c01_section32() { sections(false, 1, false, 7); }
extern "C" void c01_section64() { sections(true, 1, false, 7); }
extern "C" void c01_sectionmem() { sections(false, 1, true, 2); }
extern "C" void c01_two() { sections(false, 2, false, 1); }
// e_lfanew, section count, directory count and SizeOfOptionalHeader interact: tables that start anywhere
extern "C" void c01_tables()
{
    bool pe64 = sym_choose(2, "pe64"); Layout l = mkLayout(pe64, 2, 2); std::string f(l.end() + (sym_choose(2, "long") ? 160 : 4), 0); fillHeaders(f, l); uint16_t os = sym_u16("optsize"), ns = sym_u16("nsec"); uint32_t nd = sym_u32("ndirs"); sym_assume((ns <= 4) | ((ns >= 0x5f) & (ns <= 0x61)) | (ns >= 0xfffe)); sym_assume((nd <= 17) | (nd >= 0xfffffffeu)); sym_assume((os <= 4) | ((os >= l.optsize - 3) & (os <= l.optsize + 90)) | (os >= 0xfffd));
    put16(f, l.lf + H_OPTSIZE, (uint16_t)sym_concretize(os)); put16(f, l.lf + H_NSEC, (uint16_t)sym_concretize(ns)); put32(f, l.nrva(), nd); for (unsigned i = 0; i < 2; i++) { put32(f, l.sec(i) + S_VSIZE, 0x1000); put32(f, l.sec(i) + S_VA, 0x1000 * (1 + i)); } open_any(f, sym_choose(2, "mem"), sym_choose(2, "debug"));
}
// the debug directory may lie anywhere and point anywhere
static void debug(bool pe64, unsigned where)
{
    Layout l = mkLayout(pe64, 1, 7); unsigned e = (l.end() + 15) & ~15; std::string f(e + 64, 0); fillHeaders(f, l); unsigned o = l.sec(0); put32(f, l.lf + H_SALIGN, 16); put32(f, l.lf + H_FALIGN, 16); put32(f, o + S_VSIZE, 64); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 64); put32(f, o + S_RAWPTR, e); put32(f, l.lf + H_IMGSIZE, 0x1040); put32(f, l.lf + H_HDRSIZE, l.end());
    uint32_t rva = sym_u32("rva"); put32(f, l.dirs() + 52, sym_u32("size"));
    if (where == 0) { sym_assume(rva >= 0xfe0 && rva <= 0x1044); rva = (uint32_t)sym_concretize(rva); put32(f, l.dirs() + 48, rva); symbytes(f, e, 60, "directory"); for (unsigned i = 0; i < 3; i++) { unsigned at = rva - 0x1000 + e + 28 * i; if (at < e || at + 28 > f.size()) break; uint32_t sz = get32(f, at + 16), p = get32(f, at + 24); sym_assume((sz <= 2) | ((sz >= f.size() - 1) & (sz <= f.size() + 1))); put32(f, at + 16, (uint32_t)sym_concretize(sz)); sym_assume((p <= 2) | ((p >= f.size() - 3) & (p <= f.size() + 1)) | (p >= 0xfffffffeu)); } }
    else { sym_assume((rva <= 8) | ((rva >= l.end() - 32) & (rva <= l.end() + 1)) | (rva >= 0xffffffe0u)); put32(f, l.dirs() + 48, (uint32_t)sym_concretize(rva)); }
    open_any(f, sym_choose(2, "mem"), true);
}
extern "C" void c01_debug32() { debug(false, 0); }
extern "C" void c01_debug64() { debug(true, 0); }
extern "C" void c01_debughdr() { debug(sym_choose(2, "pe64"), 1); }
