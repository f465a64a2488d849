// PE header layout used by the stream harnesses (offsets relative to e_lfanew), stated independently of the library's structures.
#pragma once
#include "pe.h"
enum { H_SIG = 0, H_MACHINE = 4, H_NSEC = 6, H_TIME = 8, H_SYMTAB = 12, H_NSYM = 16, H_OPTSIZE = 20, H_CHAR = 22, H_MAGIC = 24, H_LINKER = 26, H_CODESZ = 28,
       H_EP = 40, H_BASEOFCODE = 44, H_SALIGN = 56, H_FALIGN = 60, H_OSMAJ = 64, H_OSMIN = 66, H_IMGMAJ = 68, H_IMGMIN = 70, H_SSMAJ = 72, H_SSMIN = 74, H_WIN32VER = 76, H_IMGSIZE = 80, H_HDRSIZE = 84, H_CHECKSUM = 88,
       H_SUBSYS = 92, H_DLLCHAR = 94 };
struct Layout { bool pe64; unsigned lf; unsigned ndirs; unsigned nsec; unsigned optsize;
    unsigned fixed() const { return pe64 ? 136 : 120; }              // signature + file header + optional header without directories
    unsigned nrva() const { return lf + (pe64 ? 132 : 116); }
    unsigned dirs() const { return lf + fixed(); }
    unsigned sec(unsigned i) const { return lf + 24 + optsize + 40 * i; }
    unsigned end() const { return sec(nsec); }
};
enum { S_NAME = 0, S_VSIZE = 8, S_VA = 12, S_RAWSIZE = 16, S_RAWPTR = 20, S_CHAR = 36 };
static inline Layout mkLayout(bool pe64, unsigned nsec, unsigned ndirs, unsigned lf = 64) { Layout l; l.pe64 = pe64; l.lf = lf; l.ndirs = ndirs; l.nsec = nsec; l.optsize = (pe64 ? 112 : 96) + 8 * ndirs; return l; }
// a concrete valid header for the layout; alignments 0x1000/0x200; sections have to be filled in
static inline void fillHeaders(std::string& f, const Layout& l)
{
    put16(f, 0, 0x5a4d); put32(f, 60, l.lf); put32(f, l.lf, 0x4550); put16(f, l.lf + H_MACHINE, l.pe64 ? 0x8664 : 0x14c); put16(f, l.lf + H_NSEC, l.nsec); put16(f, l.lf + H_OPTSIZE, l.optsize); put16(f, l.lf + H_CHAR, 0x102);
    put16(f, l.lf + H_MAGIC, l.pe64 ? 0x20b : 0x10b); put32(f, l.lf + H_SALIGN, 0x1000); put32(f, l.lf + H_FALIGN, 0x200); put32(f, l.lf + H_IMGSIZE, 0x1000 * (1 + l.nsec)); put32(f, l.lf + H_HDRSIZE, l.end());
    put32(f, l.nrva(), l.ndirs);
}
