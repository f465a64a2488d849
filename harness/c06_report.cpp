// C06: an opened image reports exactly what the file contains.
#include "hdr.h"
// every scalar accessor against the file's own bytes; L = e_lfanew, all offsets independent of the library
static void accessors(const pe_base& p, const std::string& f, const Layout& l)
{
    unsigned L = l.lf; bool w = l.pe64;
    sym_assert((p.get_pe_signature() == get32(f, L)) & (p.get_machine() == get16(f, L + H_MACHINE)) & (p.get_time_date_stamp() == get32(f, L + H_TIME)) & (p.get_characteristics() == get16(f, L + H_CHAR)) & (p.get_size_of_optional_header() == get16(f, L + H_OPTSIZE)) & (p.get_number_of_sections() == get16(f, L + H_NSEC)), "file header accessors");
    sym_assert((p.get_magic() == get16(f, L + H_MAGIC)) & (p.get_ep() == get32(f, L + H_EP)) & (p.get_base_of_code() == get32(f, L + H_BASEOFCODE)) & (p.get_section_alignment() == get32(f, L + H_SALIGN)) & (p.get_file_alignment() == get32(f, L + H_FALIGN)) & (p.get_size_of_image() == get32(f, L + H_IMGSIZE)) & (p.get_size_of_headers() == get32(f, L + H_HDRSIZE)) & (p.get_checksum() == get32(f, L + H_CHECKSUM)), "optional header accessors");
    sym_assert((p.get_major_os_version() == get16(f, L + H_OSMAJ)) & (p.get_minor_os_version() == get16(f, L + H_OSMIN)) & (p.get_major_subsystem_version() == get16(f, L + H_SSMAJ)) & (p.get_minor_subsystem_version() == get16(f, L + H_SSMIN)) & (p.get_subsystem() == get16(f, L + H_SUBSYS)) & (p.get_dll_characteristics() == get16(f, L + H_DLLCHAR)), "version, subsystem and DLL characteristics accessors");
    uint64_t base = w ? get64(f, L + 48) : get32(f, L + 52), v[4]; for (int i = 0; i < 4; i++) v[i] = w ? get64(f, L + 96 + 8 * i) : get32(f, L + 96 + 4 * i);
    sym_assert((p.get_image_base_64() == base) & (p.get_image_base_32() == (uint32_t)base), "image base accessors");
    sym_assert((p.get_stack_size_reserve_64() == v[0]) & (p.get_stack_size_commit_64() == v[1]) & (p.get_heap_size_reserve_64() == v[2]) & (p.get_heap_size_commit_64() == v[3]), "stack and heap size accessors");
    sym_assert((p.get_stack_size_reserve_32() == (uint32_t)v[0]) & (p.get_stack_size_commit_32() == (uint32_t)v[1]) & (p.get_heap_size_reserve_32() == (uint32_t)v[2]) & (p.get_heap_size_commit_32() == (uint32_t)v[3]), "stack and heap size accessors (32 bits)");
}
static void report(const std::string& f, const Layout& l, bool mem, unsigned nd)
{
    std::istringstream in(f); pe_type ty = pe_base::get_pe_type(in); sym_assert(ty == (l.pe64 ? pe_type_64 : pe_type_32), "the image type of the stream is that of the magic");
    bool dbg = sym_choose(2, "debug"); if (dbg && nd > 6) sym_assume(get32(f, l.dirs() + 48) == 0); pe_base q = pe_base(pe_properties_32());
    try { pe_base p(pe_factory::create_pe(in, mem, dbg)); q = p; } catch (const pe_exception&) { sym_reach("refused"); return; }
    const pe_base& p = q; sym_reach("opened"); sym_assert(p.get_pe_type() == ty, "image type");
    accessors(p, f, l); sym_assert(p.get_number_of_rvas_and_sizes() == nd, "directory count (at most 16)");
    for (unsigned i = 0; i < nd; i++) sym_assert((p.get_directory_rva(i) == get32(f, l.dirs() + 8 * i)) & (p.get_directory_size(i) == get32(f, l.dirs() + 8 * i + 4)), "data directories");
    sym_assert(sym_eqmem(&p.get_dos_header(), f.data(), 64) && (uint32_t)p.get_pe_header_start() == l.lf, "DOS header");
    unsigned ns = l.lf > 64 ? l.lf - 64 : 0; sym_assert(p.get_stub_overlay().size() == ns && sym_eqmem(p.get_stub_overlay().data(), f.data() + 64, ns), "DOS stub");
    const section_list& s = p.get_image_sections(); sym_assert(s.size() == l.nsec, "number of sections"); if (s.size() != l.nsec) return;
    uint32_t fa = get32(f, l.lf + H_FALIGN), sa = get32(f, l.lf + H_SALIGN), end = get32(f, l.lf + H_HDRSIZE), hl = end < f.size() ? end : f.size(); bool first = true;
    for (unsigned i = 0; i < l.nsec; i++) {
        unsigned o = l.sec(i); uint32_t vs = get32(f, o + S_VSIZE), va = get32(f, o + S_VA), rs = get32(f, o + S_RAWSIZE), rp = get32(f, o + S_RAWPTR), n = (uint32_t)sym_ite((vs != 0) & (((rs + fa - 1) & ~(fa - 1)) > ((vs + sa - 1) & ~(sa - 1))), vs, rs);
        sym_assert((s[i].get_virtual_size() == vs) & (s[i].get_virtual_address() == va) & (s[i].get_pointer_to_raw_data() == rp) & (s[i].get_size_of_raw_data() == n) & (s[i].get_characteristics() == get32(f, o + S_CHAR)), "section attributes");
        sym_assert(s[i].empty() == (n == 0), "a section is empty exactly when it has no raw data");
        std::string h((const char*)&s[i].get_raw_header(), 40), g = f.substr(o, 40); put32(g, S_RAWSIZE, n); sym_assert(sym_eqmem(h.data(), g.data(), 40), "section header bytes");
        unsigned k = (unsigned)sym_concretize(n), at = mem ? (unsigned)sym_concretize(va & ~(sa - 1)) : (unsigned)sym_concretize(rp & ~(fa - 1)); sym_assert(s[i].get_raw_data().size() == k, "section data length"); if (s[i].get_raw_data().size() != k) return;
        if (k) sym_assert(at + k <= f.size() && sym_eqmem(s[i].get_raw_data().data(), f.data() + at, k), "section data is the file's bytes of its raw extent");
        if (rs) end = (uint32_t)sym_ite(rp + rs > end, rp + rs, end); if (k && first) { first = false; uint32_t hs = get32(f, l.lf + H_HDRSIZE); hl = (uint32_t)sym_ite(rp < hs, rp, hs); }
    }
    sym_assert(p.has_overlay() == (l.nsec && f.size() > end), "overlay flag"); if (p.has_overlay()) sym_reach("overlay");
    unsigned hn = (unsigned)sym_concretize(hl); sym_assert(p.get_full_headers_data().size() == hn && sym_eqmem(p.get_full_headers_data().data(), f.data(), hn), "stored header bytes are the file's"); sym_reach("reported");
}
// all header bytes free except the layout
static void symheaders(std::string& f, const Layout& l)
{
    fillHeaders(f, l); std::string k = f; symbytes(f, 0, l.end() < f.size() ? l.end() : f.size(), "headers"); if (l.lf >= 64) put32(f, 60, l.lf);
    static const unsigned keep[][2] = { { 0, 2 } , { H_SIG, 4 }, { H_NSEC, 2 }, { H_OPTSIZE, 2 }, { H_MAGIC, 2 }, { H_SALIGN, 8 }, { H_IMGSIZE, 8 } };
    for (unsigned i = 0; i < 7; i++) for (unsigned j = 0; j < keep[i][1]; j++) { unsigned o = (i ? l.lf : 0) + keep[i][0] + j; f[o] = k[o]; }
    put32(f, l.nrva(), l.ndirs); if (l.lf < 64) put32(f, 60, l.lf); put16(f, 0, 0x5a4d);
}
static const unsigned ND[4] = { 16, 3, 0, 20 };
static void nosec(bool pe64)
{
    unsigned nd = ND[sym_choose(4, "ndirs")]; static const unsigned LF[5] = { 64, 72, 128, 4, 16 }; Layout l = mkLayout(pe64, 0, nd > 16 ? 16 : nd, LF[sym_choose(5, "lfanew")]); std::string f(l.end() + sym_choose(2, "extra") * 3, 0); if (f.size() < 64) return;
    if (l.lf < 64) { fillHeaders(f, l); symheaders(f, l); put32(f, l.lf + H_SALIGN, 0x1000); put32(f, l.lf + H_FALIGN, 0x200); put32(f, 60, l.lf); if (l.lf == 4) { put32(f, 60, 4); put32(f, l.lf + H_FALIGN, 4); /* offset 60 is SectionAlignment */ } } else symheaders(f, l);
    symbytes(f, l.end(), f.size() - l.end(), "tail"); put32(f, l.nrva(), nd); uint32_t hs = sym_u32("hs"); sym_assume((hs <= 2) | ((hs >= f.size() - 1) & (hs <= f.size() + 1)) | (hs >= 0xfffffffeu)); put32(f, l.lf + H_HDRSIZE, hs); report(f, l, sym_choose(2, "mem"), nd > 16 ? 16 : nd);
}
extern "C" void c06_nosec32() { nosec(false); }
extern "C" void c06_nosec64() { nosec(true); }
static void one(bool pe64, bool mem)
{
    static const unsigned RP[4] = { 0x200, 0x20f, 0x400, 0x1ff }, RS[4] = { 0, 7, 0x203, 0x1010 }, VS[5] = { 0, 5, 0x203, 0x1000, 0x1001 };
    Layout l = mkLayout(pe64, 1, ND[sym_choose(3, "ndirs")]); unsigned big = mem ? 0x1000 : 0, o = l.sec(0), ri = sym_choose(mem ? 3 : 4, "rawsize"), rp = RP[sym_choose(4, "rawptr")]; std::string f((mem ? 0x1000 : 0x400) + 0x210 + sym_choose(2, "extra") * 0x10 + (ri == 3 ? 0x1000 : 0), 0); symheaders(f, l);
    for (unsigned i = 0x200; i < f.size(); i++) f[i] = (char)(i * 7 + i / 256); symbytes(f, 0x200, 12, "first"); symbytes(f, 0x3fc, 8, "mid"); symbytes(f, 0x5fc, 8, "end"); if (mem) symbytes(f, 0x1000, 12, "virtual");
    put32(f, l.lf + H_IMGSIZE, 0x3000); static const unsigned HS[3] = { 64, 0x200, 0x400 }; put32(f, l.lf + H_HDRSIZE, HS[sym_choose(3, "hs")]); put32(f, o + S_RAWSIZE, RS[ri]); put32(f, o + S_RAWPTR, rp); put32(f, o + S_VA, 0x1000 + 4 * sym_choose(2, "va")); put32(f, o + S_VSIZE, VS[sym_choose(5, "vs")]); report(f, l, mem, l.ndirs);
}
extern "C" void c06_one32() { one(false, false); }
extern "C" void c06_one64() { one(true, false); }
extern "C" void c06_mem() { one(sym_choose(2, "pe64"), true); }
// two or three sections, with and without data, in any order in the file
static void many(unsigned n, bool pe64)
{
    Layout l = mkLayout(pe64, n, 2); static const unsigned RP[3] = { 0x400, 0x600, 0xffffff00u }; std::string f(0x600 + 0x10 * (1 + sym_choose(2, "extra")), 0); symheaders(f, l); symbytes(f, 0x400, 16, "a"); symbytes(f, 0x600, f.size() - 0x600, "b"); uint32_t va = 0x1000; put32(f, l.lf + H_IMGSIZE, 0x8000); put32(f, l.lf + H_HDRSIZE, 0x300);
    for (unsigned i = 0; i < n; i++) { unsigned o = l.sec(i), r = sym_choose(3, "where"); uint32_t vs = sym_u16("vs"); sym_assume((vs > 0) & (vs <= 0x1800)); put32(f, o + S_VA, va); put32(f, o + S_VSIZE, vs); put32(f, o + S_RAWPTR, RP[r]); put32(f, o + S_RAWSIZE, r == 2 ? 0 : 0x10); va += (vs + 0xfff) & ~0xfff; }
    report(f, l, false, 2);
}
extern "C" void c06_two() { many(2, false); }
extern "C" void c06_three() { many(3, true); }
// long stubs and sections of more than 64 KB
extern "C" void c06_large()
{
    static const unsigned LF[4] = { 64, 0x104, 0x10004, 0x10100 }, RS[4] = { 0x200, 0xffff, 0x10000, 0x12345 }; bool mem = sym_choose(2, "mem"); Layout l = mkLayout(sym_choose(2, "pe64"), 2, 16, LF[sym_choose(4, "lfanew")]); unsigned rs = RS[sym_choose(4, "rawsize")], h = (l.end() + 0xfff) & ~0xfffu, v2 = h + ((rs + 0xfff) & ~0xfffu); std::string f(v2 + 0x200 + sym_choose(2, "extra") * 5, 's'); std::string st = f; fillHeaders(f, l); std::string k = f; symbytes(f, l.lf, l.end() - l.lf, "headers");
    static const unsigned keep[][2] = { { H_SIG, 4 }, { H_NSEC, 2 }, { H_OPTSIZE, 2 }, { H_MAGIC, 2 }, { H_SALIGN, 8 }, { H_IMGSIZE, 8 } }; for (unsigned i = 0; i < 6; i++) for (unsigned j = 0; j < keep[i][1]; j++) f[l.lf + keep[i][0] + j] = k[l.lf + keep[i][0] + j]; put32(f, l.nrva(), 16); if (l.lf > 64) { symbytes(f, 64, 4, "stubfirst"); symbytes(f, l.lf - 4, 4, "stublast"); } symbytes(f, h, 4, "first"); symbytes(f, h + rs - 4, 4, "last"); symbytes(f, v2, 4, "second");
    put32(f, l.lf + H_HDRSIZE, h); put32(f, l.lf + H_IMGSIZE, v2 + 0x1000); for (unsigned i = 0; i < 2; i++) { unsigned o = l.sec(i); put32(f, o + S_VSIZE, i ? 0x200 : rs); put32(f, o + S_VA, i ? v2 : h); put32(f, o + S_RAWSIZE, i ? 0x200 : rs); put32(f, o + S_RAWPTR, i ? v2 : h); } report(f, l, mem, 16);
}
// every pair of alignments
extern "C" void c06_aligns()
{
    static const unsigned A[6] = { 1, 4, 16, 0x200, 0x1000, 0x10000 }; unsigned sa = A[sym_choose(6, "salign")], fa = A[sym_choose(6, "falign")]; bool mem = sym_choose(2, "mem"); Layout l = mkLayout(false, 1, 2); unsigned o = l.sec(0), va = 0x1000 > sa ? 0x1000 : sa, rp = 0x1000 > fa ? 0x1000 : fa; std::string f((mem ? va : rp) + 0x30, 0); fillHeaders(f, l); symbytes(f, 0x800, f.size() - 0x800 < 8 ? 8 : 8, "gap"); symbytes(f, f.size() - 0x30, 0x30, "data"); static const unsigned RS[4] = { 0, 5, 16, 0x20 }, VS[4] = { 0, 3, 16, 0x30 }; unsigned rs = RS[sym_choose(4, "rawsize")], vs = VS[sym_choose(4, "vs")], d = sym_choose(2, "unaligned") * 2;
    put32(f, l.lf + H_SALIGN, sa); put32(f, l.lf + H_FALIGN, fa); put32(f, l.lf + H_HDRSIZE, 0x200); put32(f, l.lf + H_IMGSIZE, va + (sa > 0x1000 ? sa : 0x1000)); put32(f, o + S_VSIZE, vs); put32(f, o + S_VA, va); put32(f, o + S_RAWSIZE, rs); put32(f, o + S_RAWPTR, rp + d); report(f, l, mem, 2);
}
