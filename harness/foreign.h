// Images with directory data the library did not write: tables laid out in any arrangement over the headers, a section filled with data and one that continues with zeros.
#pragma once
#include "dir.h"
#include <vector>
typedef std::vector<uint32_t> Sizes;
// headers [0x1a0,0x200) at their offsets; A: addresses 0x1000..0x1400, data 0x400 bytes; B: addresses 0x1400..0x1800, data 0x200 bytes
enum { A0 = 0x1000, A1 = 0x1400, B0 = 0x1400, BD = 0x1600, B1 = 0x1800, H0 = 0x1a0, H1 = 0x200 };
struct Foreign
{
    bool pe64; Layout l; std::string f; unsigned w; uint64_t base; uint32_t end;
    explicit Foreign(bool x) : pe64(x), l(mkLayout(x, 2, 16)), f(0x800, 0), w(x ? 8 : 4), base(x ? 0x140000000ull : 0x400000), end(BD)
    {
        fillHeaders(f, l); put32(f, l.lf + H_SALIGN, 0x200); put32(f, l.lf + H_HDRSIZE, 0x200); put32(f, l.lf + H_IMGSIZE, B1); if (pe64) put64(f, l.lf + 48, base); else put32(f, l.lf + 52, (uint32_t)base);
        unsigned o = l.sec(0); put32(f, o + S_VSIZE, 0x400); put32(f, o + S_VA, A0); put32(f, o + S_RAWSIZE, 0x400); put32(f, o + S_RAWPTR, 0x200); put32(f, o + S_CHAR, 0x40000040); o = l.sec(1); put32(f, o + S_VSIZE, 0x400); put32(f, o + S_VA, B0); put32(f, o + S_RAWSIZE, 0x200); put32(f, o + S_RAWPTR, 0x600); put32(f, o + S_CHAR, 0xc0000040);
        memset(&f[0x200], 0xd1, 0x600); memset(&f[H0], 0xd1, H1 - H0);
    }
    // one section with 0x8000 bytes of data instead
    void large() { f.resize(0x200 + 0x8000); memset(&f[0x200], 0xd1, 0x8000); unsigned o = l.sec(0); put32(f, o + S_VSIZE, 0x8000); put32(f, o + S_RAWSIZE, 0x8000); o = l.sec(1); put32(f, o + S_VA, 0x9000); put32(f, o + S_RAWSIZE, 0); put32(f, o + S_RAWPTR, 0); put32(f, l.lf + H_IMGSIZE, 0x9400); end = 0x9000; }
    // zeros behind the data are never written
    void at(uint32_t rva, const std::string& s) { for (size_t i = 0; i < s.size(); i++) { uint32_t a = rva + (uint32_t)i; if (a >= end) break; f[a < A0 ? a : a - A0 + 0x200] = s[i]; } }
    void u16(uint32_t rva, uint16_t v) { std::string s(2, 0); put16(s, 0, v); at(rva, s); }
    void u32(uint32_t rva, uint32_t v) { std::string s(4, 0); put32(s, 0, v); at(rva, s); }
    void u64(uint32_t rva, uint64_t v) { std::string s(8, 0); put64(s, 0, v); at(rva, s); }
    void ptr(uint32_t rva, uint64_t v) { if (pe64) u64(rva, v); else u32(rva, (uint32_t)v); }
    void str(uint32_t rva, const std::string& s) { at(rva, s + std::string(1, '\0')); }
    void dir(unsigned i, uint32_t rva, uint32_t size) { put32(f, l.dirs() + 8 * i, rva); put32(f, l.dirs() + 8 * i + 4, size); }
    pe_base open() const { std::istringstream in(f); return pe_base(pe_factory::create_pe(in)); }
    uint64_t snap() const { return pe64 ? 0x8000000000000000ull : 0x80000000ull; }
};
// addresses for blocks of the given sizes
enum { ARRANGE = 6 };
static inline Sizes arrange(const Sizes& n, unsigned how)
{
    Sizes r(n.size()); uint32_t a = A0, b = B0, h = H0;
    switch (how)
    {
    case 0: for (size_t i = 0; i < n.size(); i++) { r[i] = a; a += n[i]; } break;                                              // one after the other
    case 1: a += 5; for (size_t i = n.size(); i--;) { r[i] = a; a += n[i] + 1; } break;                                        // backwards, at odd addresses
    case 2: for (size_t i = 0; i < n.size(); i++) if (i & 1) { r[i] = a; a += n[i] + 3; } else { r[i] = b; b += n[i] + 3; } break; // in turns in both sections
    case 3: a = A1; for (size_t i = 0; i < n.size(); i++) { a -= n[i]; r[i] = a; } break;                                      // up to the very end of a section
    case 4: b = B1; for (size_t i = n.size(); i--;) { if (i + 1 == n.size()) { b = BD - (n[i] > 1 ? n[i] - 1 : n[i]); r[i] = b; } else { b -= n[i]; r[i] = b; } } break; // the last byte of the last block lies behind the data
    default: for (size_t i = 0; i < n.size(); i++) if (h + n[i] <= H1) { r[i] = h; h += n[i]; } else { r[i] = a; a += n[i]; } break; // in the headers as far as they fit
    }
    return r;
}
static inline bool fits(const Sizes& n, const Sizes& r) { for (size_t i = 0; i < n.size(); i++) if (!((r[i] >= H0 && r[i] + n[i] <= H1) || (r[i] >= A0 && r[i] + n[i] <= A1) || (r[i] >= B0 && r[i] + n[i] <= B1))) return false; return true; }
