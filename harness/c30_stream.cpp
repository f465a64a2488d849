// C30: reading from a stream leaves the caller's stream as it was.
#include "hdr.h"
#include "pe_checksum.h"
#include "entropy.h"
// which: 0 type, 1 open, 2 checksum, 3 entropy
static void run(std::istringstream& in, unsigned which, bool mem)
{
    uint32_t pos = (uint32_t)in.tellg(); static const std::ios_base::iostate MASK[5] = { std::ios::goodbit, std::ios::badbit | std::ios::failbit | std::ios::eofbit, std::ios::failbit, std::ios::eofbit, std::ios::badbit }; std::ios_base::iostate m = MASK[sym_choose(5, "mask")]; in.exceptions(m);
    bool thrown = false; try {
        switch (which) { case 0: pe_base::get_pe_type(in); break; case 1: { pe_base p(pe_factory::create_pe(in, mem, sym_choose(2, "debug"))); break; } case 2: calculate_checksum(in); break; case 3: entropy_calculator::calculate_entropy(in); break; }
    } catch (const pe_exception&) { thrown = true; } catch (const std::ios_base::failure&) { sym_assert(0, "the library's own reads never trigger the caller's exception mask"); return; }
    sym_reach(thrown ? "failed" : "succeeded");
    sym_assert(in.exceptions() == m, "the exception mask is restored"); sym_assert(in.rdstate() == std::ios::goodbit, "no error is left behind"); in.exceptions(std::ios::goodbit); sym_assert((uint32_t)in.tellg() == pos, "the position is restored");
}
// truncations and corruptions of a small image, from any position
static void cut(unsigned which)
{
    bool pe64 = sym_choose(2, "pe64"); Layout l = mkLayout(pe64, 1, 1); std::string f(l.end() + 8, 0); fillHeaders(f, l); unsigned o = l.sec(0); put32(f, o + S_VSIZE, 8); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 8); put32(f, o + S_RAWPTR, l.end()); put32(f, l.lf + H_SALIGN, 8); put32(f, l.lf + H_FALIGN, 8);
    put32(f, l.lf + H_IMGSIZE, 0x1008); if (which < 2) symbytes(f, l.end(), 8, "data"); unsigned w = sym_choose(which < 2 ? 4 : 3, "corrupt"); if (w == 1) put16(f, 0, which < 2 ? sym_u16("magic") : 0x4d5a); if (w == 2) { uint32_t v = sym_u32("lfanew"); sym_assume((v <= 72) | (v >= 0xfffffff0u) | ((v >= f.size() - 4) & (v <= f.size() + 4))); put32(f, 60, which == 1 || which == 0 ? (uint32_t)sym_concretize(v) : v); } if (w == 3) put32(f, l.lf, sym_u32("sig"));
    unsigned n = (unsigned)sym_concretize(w ? f.size() : [&] { uint32_t c = sym_u32("cut"); sym_assume(c <= f.size()); return c; }()); std::istringstream in(f.substr(0, n)); unsigned p = sym_choose(3, "pos") * 33; if (p > n) p = n; in.seekg(p); run(in, which, sym_choose(2, "mem"));
}
extern "C" void c30_type() { cut(0); }
extern "C" void c30_open() { cut(1); }
extern "C" void c30_checksum() { cut(2); }
// section tables that point anywhere
extern "C" void c30_sections()
{
    Layout l = mkLayout(false, 1, 0); std::string f(l.end() + 8, 0); fillHeaders(f, l); unsigned o = l.sec(0); symbytes(f, o + 8, 16, "section"); uint32_t rs = get32(f, o + S_RAWSIZE), vs = get32(f, o + S_VSIZE), rp = get32(f, o + S_RAWPTR); sym_assume((rs <= 2) | (rs >= 0x300)); sym_assume((vs <= 2) | (vs >= 0x1000)); sym_assume((rp <= 2) | (rp >= 0xffffff00u) | ((rp >= 0x1fe) & (rp <= 0x201))); uint32_t va = get32(f, o + S_VA); sym_assume((va <= 2) | ((va >= 0xffe) & (va <= 0x1001)) | (va >= 0xfffff000u)); std::istringstream in(f); in.seekg(sym_choose(2, "pos") * 5); run(in, 1, sym_choose(2, "mem"));
}
// debug data read from anywhere in the file
extern "C" void c30_debug()
{
    Layout l = mkLayout(false, 1, 7); unsigned e = (l.end() + 15) & ~15; std::string f(e + 64, 0); fillHeaders(f, l); unsigned o = l.sec(0); put32(f, l.lf + H_SALIGN, 16); put32(f, l.lf + H_FALIGN, 16); put32(f, o + S_VSIZE, 64); put32(f, o + S_VA, 0x1000); put32(f, o + S_RAWSIZE, 64); put32(f, o + S_RAWPTR, e); put32(f, l.lf + H_IMGSIZE, 0x1040); put32(f, l.dirs() + 48, 0x1000); put32(f, l.dirs() + 52, sym_choose(2, "size") * 28 + 28);
    uint32_t ty = sym_u32("type"), sz = sym_u32("size"), pt = sym_u32("pointer"); sym_assume((sz <= 8) | ((sz >= f.size() - 2) & (sz <= f.size() + 2))); sym_assume((pt <= 8) | ((pt >= f.size() - 8) & (pt <= f.size() + 2)) | (pt >= 0xfffffff0u)); put32(f, e + 12, ty); put32(f, e + 16, (uint32_t)sym_concretize(sz)); put32(f, e + 24, pt);
    std::istringstream in(f); in.seekg(sym_choose(2, "pos") * 9); uint32_t pos = (uint32_t)in.tellg(); std::ios_base::iostate m = sym_choose(2, "mask") ? std::ios::failbit | std::ios::badbit | std::ios::eofbit : std::ios::goodbit; in.exceptions(m);
    try { pe_base p(pe_factory::create_pe(in, false, true)); sym_reach(p.get_raw_debug_data_list().size() ? "debug data" : "no debug data"); } catch (const pe_exception&) { sym_reach("refused"); } catch (const std::ios_base::failure&) { sym_assert(0, "the library's own reads never trigger the caller's exception mask"); return; }
    sym_assert(in.exceptions() == m && in.rdstate() == std::ios::goodbit, "mask and state are restored"); in.exceptions(std::ios::goodbit); sym_assert((uint32_t)in.tellg() == pos, "the position is restored");
}
extern "C" void c30_entropy() { unsigned n = sym_choose(6, "len"); std::string d(n, 'x'); for (unsigned i = 0; i < n; i++) d[i] = 'a' + sym_choose(2, "byte"); std::istringstream in(d); unsigned p = sym_choose(6, "pos"); if (p > n) return; in.seekg(p); run(in, 3, false); }
