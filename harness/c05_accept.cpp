// C05: a stream is opened exactly when its headers satisfy the loader rules
#include "hdr.h"
// ---- the rules, stated over exact (64-bit) arithmetic, without branching on symbolic values ----
typedef uint64_t u64;
static u64 up(u64 x, u64 a) { return (x + a - 1) & ~(a - 1); }       // a is a non-zero power of two
static u64 down(u64 x, u64 a) { return x & ~(a - 1); }
static u64 pick(bool c, u64 a, u64 b) { return sym_ite(c, a, b); }
static bool pow2(u64 x) { return (x != 0) & ((x & (x - 1)) == 0); }
static bool rules(const std::string& f, const Layout& l, bool mem)
{
    u64 fs = f.size();
    bool ok = (get16(f, 0) == 0x5a4d) & (get32(f, l.lf) == 0x4550) & (get16(f, l.lf + H_MAGIC) == (l.pe64 ? 0x20b : 0x10b));
    u64 nsec = get16(f, l.lf + H_NSEC), sa = get32(f, l.lf + H_SALIGN), fa = get32(f, l.lf + H_FALIGN), img = get32(f, l.lf + H_IMGSIZE), hs = get32(f, l.lf + H_HDRSIZE), nd = get32(f, l.nrva()), os = get16(f, l.lf + H_OPTSIZE);
    nd = pick(nd > 16, 16, nd);
    ok &= l.lf + l.fixed() + 8 * nd <= fs;
    ok &= nsec <= 0x60;
    ok &= pow2(sa) & pow2(fa);
    ok &= (fa == sa) | ((fa >= 512) & (fa <= sa));
    u64 sa1 = pick(pow2(sa), sa, 1), fa1 = pick(pow2(fa), fa, 1);
    u64 imgEnd = up(img, sa1);
    ok &= (imgEnd != 0) & (imgEnd < 0x100000000ull);
    ok &= (nsec == 0) | (l.lf + 24 + os + 40 * nsec <= fs);
    u64 hdrRead = pick(hs < fs, hs, fs), prevEnd = 0; bool haveRaw = false;
    for(unsigned i = 0; i < l.nsec; i++)
    {
        unsigned s = l.sec(i); u64 vs = get32(f, s + S_VSIZE), va = get32(f, s + S_VA), rs = get32(f, s + S_RAWSIZE), rp = get32(f, s + S_RAWPTR);
        ok &= !((vs == 0) & (rs == 0));
        ok &= (va + vs <= 0xffffffffull) & (vs <= 0x80000000ull) & (rp + rs <= 0xffffffffull) & (rs <= 0x80000000ull);
        u64 eff = pick((vs != 0) & (up(rs, fa1) > up(vs, sa1)), vs, rs);       // raw data larger than the mapped extent is cut to the virtual size
        eff = pick(rs == 0, 0, eff);
        u64 ext = pick(vs == 0, up(eff, sa1), up(vs, sa1));      // mapped extent
        ok &= va + ext <= imgEnd;
        u64 from = mem ? down(va, sa1) : down(rp, fa1);
        ok &= (rs == 0) | ((down(rp, fa1) + eff <= fs) & (from + eff <= fs) & (from <= fs));
        if(i == 0) ok &= hs <= va; else ok &= va == prevEnd;
        prevEnd = va + ext;
        // the stored header bytes end where the first section with raw data begins
        hdrRead = pick(!haveRaw & (eff != 0), pick(hs < rp, hs, rp), hdrRead);
        haveRaw = haveRaw | (eff != 0);
    }
    ok &= hdrRead <= fs;
    return ok;
}
static bool opens(const std::string& file, bool mem)
{
    std::istringstream f(file);
    try { pe_base image(pe_factory::create_pe(f, mem, false)); return true; }
    catch(const pe_exception&) { return false; }
}
static void check(const std::string& f, const Layout& l, bool mem)
{
    bool want = rules(f, l, mem), got = opens(f, mem);
    sym_reach(got ? "accepted" : "refused");
    sym_assert(!got | want, "an image that violates a loader rule is refused");
    sym_assert(got | !want, "an image that satisfies every loader rule is accepted");
    sym_done();
}
// values whose every distinct value costs a path are kept near the boundaries
static void near_(uint32_t v, uint32_t lo, uint32_t fs) { sym_assume((v <= lo) | (v >= fs)); }

// all header fields free; no section table beyond the end of the file
static void headers(bool pe64)
{
    Layout l = mkLayout(pe64, 0, 2);
    std::string f(l.end() + sym_choose(2, "extra") * 4, '\0'); symbytes(f, 0, f.size(), "file"); put32(f, 60, 64);
    near_(get32(f, l.lf + H_HDRSIZE), 1, f.size() - 1);
    uint16_t ns = get16(f, l.lf + H_NSEC); // section tables that lie in the file are the business of the other harnesses
    sym_assume((ns == 0) | (ns > 0x60) | (l.lf + 24 + get16(f, l.lf + H_OPTSIZE) + 40u > f.size()));
    sym_assume(get16(f, l.lf + H_MAGIC) != (pe64 ? 0x10b : 0x20b));
    check(f, l, false);
}
extern "C" void c05_headers32() { headers(false); }
extern "C" void c05_headers64() { headers(true); }
// position of the PE header: every e_lfanew
extern "C" void c05_lfanew()
{
    Layout l = mkLayout(false, 0, 1); std::string f(64 + l.end() - 64 + 12, '\0');
    uint32_t lf = sym_u32("lf"); put16(f, 0, sym_u16("mz"));
    l.lf = (uint32_t)sym_concretize((lf >= 64) & (lf <= 80) ? lf : 64);
    Layout l2 = l; std::string g(f); g.resize(l.lf + l.fixed() + 8 + (80 - l.lf) * 0, '\0'); fillHeaders(g, l2); put16(g, 0, get16(f, 0)); put32(g, 60, lf); put32(g, l.lf + H_IMGSIZE, 0x1000); put32(g, l.lf + H_HDRSIZE, 0x40);
    bool got = opens(g, false);
    sym_reach(got ? "accepted" : "refused");
    bool inside = (lf >= 64) & (lf <= 80);
    sym_assert(!inside | (got == ((lf % 4 == 0) & (get16(g, 0) == 0x5a4d))), "the PE header is accepted exactly at four-byte aligned positions behind the MZ signature");
    sym_assert(inside | (lf < 64) | !got, "a PE header position outside the file is refused");
    sym_done();
}
// truncation: a valid file cut at every length is refused, and accepted once complete
extern "C" void c05_trunc()
{
    bool pe64 = sym_choose(2, "pe64"); Layout l = mkLayout(pe64, 1, 2);
    std::string f(l.end(), '\0'); fillHeaders(f, l); put32(f, l.sec(0) + S_VSIZE, 1); put32(f, l.sec(0) + S_VA, 0x1000); 
    uint32_t cut = sym_u32("cut"); sym_assume(cut <= f.size()); cut = (uint32_t)sym_concretize(cut);
    bool got = opens(f.substr(0, cut), false);
    sym_reach(got ? "accepted" : "refused");
    sym_assert(got == (cut == f.size()), "a truncated image is refused and the complete one accepted");
    sym_done();
}
static const uint32_t aligns[][2] = { { 0x1000, 0x200 }, { 1, 1 }, { 0x80000000u, 0x200 }, { 16, 16 }, { 0x80000000u, 0x80000000u }, { 0x1000, 0x1000 }, { 0x200, 0x200 } };
// section fields free; SizeOfHeaders below or above the first section address
static void sections(bool pe64, unsigned nsec, bool mem, unsigned nalign)
{
    Layout l = mkLayout(pe64, nsec, 0);
    unsigned fs = 0x200 + 4;
    std::string f(fs, '\0'); fillHeaders(f, l);
    unsigned al = sym_choose(nalign, "alignments");
    put32(f, l.lf + H_SALIGN, aligns[al][0]); put32(f, l.lf + H_FALIGN, aligns[al][1]);
    symbytes(f, l.lf + H_IMGSIZE, 4, "sizeofimage");
    if(nsec == 1) put32(f, l.lf + H_HDRSIZE, sym_bool("hs") ? 0x1001 : 64);
    for(unsigned i = 0; i < nsec; i++)
    {
        symbytes(f, l.sec(i), 40, "section");
        near_(get32(f, l.sec(i) + S_RAWSIZE), 1, fs - 1); uint32_t rp = get32(f, l.sec(i) + S_RAWPTR); sym_assume((rp == 0) | ((rp >= 0x1fe) & (rp <= 0x201)) | (rp >= 0x1000));
        uint32_t va = get32(f, l.sec(i) + S_VA); if(mem) sym_assume((va <= 1) | ((va >= fs - 3) & (va <= fs + 1)) | (va >= 0x1000));
        sym_assume((get32(f, l.sec(i) + S_VSIZE) <= 2) | (get32(f, l.sec(i) + S_VSIZE) >= 0x800));
    }
    check(f, l, mem);
}
// the stored header bytes must lie in the file: SizeOfHeaders and the raw position of the first section with data
extern "C" void c05_hdrbytes()
{
    Layout l = mkLayout(true, 2, 0); unsigned fs = 0x204;
    std::string f(fs, '\0'); fillHeaders(f, l);
    uint32_t hs = sym_u32("hs"); sym_assume((hs <= 1) | ((hs >= fs - 1) & (hs <= fs + 1)) | ((hs >= 0xfff) & (hs <= 0x1001))); put32(f, l.lf + H_HDRSIZE, (uint32_t)sym_concretize(hs));
    for(unsigned i = 0; i < 2; i++)
    {
        unsigned s = l.sec(i); put32(f, s + S_VSIZE, 0x1000); put32(f, s + S_VA, 0x1000 * (1 + i)); uint32_t rs = sym_u32("rs"), rp = sym_u32("rp"); sym_assume(rs <= 2); put32(f, s + S_RAWSIZE, (uint32_t)sym_concretize(rs));
        sym_assume((rp <= 1) | ((rp >= fs - 3) & (rp <= fs + 1))); put32(f, s + S_RAWPTR, rp);
    }
    check(f, l, false);
}
extern "C" void c05_section32() { sections(false, 1, false, 4); }
extern "C" void c05_section64() { sections(true, 1, false, 4); }
extern "C" void c05_sectionmore() { sections(true, 1, false, 7); }
extern "C" void c05_sectionmem() { sections(false, 1, true, 2); }
extern "C" void c05_two() { sections(false, 2, false, 1); }
extern "C" void c05_twomem() { sections(true, 2, true, 2); }
extern "C" void c05_three() { sections(true, 3, false, 1); }
// section table lengths around the limit of 96
extern "C" void c05_count()
{
    unsigned n = 0x5e + sym_choose(4, "sections"); bool pe64 = sym_choose(2, "pe64"); Layout l = mkLayout(pe64, n, 0); std::string f(l.end() + 8, '\0'); fillHeaders(f, l); put32(f, l.lf + H_SALIGN, 0x1000); put32(f, l.lf + H_HDRSIZE, 0x1000); put32(f, l.lf + H_IMGSIZE, 0x1000 * (n + 1));
    f.resize(0x1100, 0); for (unsigned i = 0; i < n; i++) { put32(f, l.sec(i) + S_VSIZE, 0x1000); put32(f, l.sec(i) + S_VA, 0x1000 * (i + 1)); } unsigned k = n - 1 - sym_choose(2, "which"); symbytes(f, l.sec(k) + S_VSIZE, 4, "vsize"); uint32_t vs = get32(f, l.sec(k) + S_VSIZE); sym_assume((vs <= 2) | (vs >= 0xffe)); check(f, l, false);
}
