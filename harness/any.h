// Images with one section of arbitrary bytes, for the memory-safety harnesses.
#pragma once
#include "hdr.h"
#include "pe_directory.h"
#define THROWS(stmt) ([&]() -> bool { try { stmt; return false; } catch (const pe_exception&) { return true; } }())
// geometry of the section: data as long as its address range, shorter (zero filled) or with an address range shorter than the alignment, or determined by the data, or smaller than any structure
struct Any { bool pe64; uint32_t raw, vsize, align; };
static Any geometry(bool pe64, unsigned kinds = 6) { static const uint32_t R[6] = { 0x200, 0x60, 0x200, 0x100, 0x10, 1 }, V[6] = { 0x200, 0x200, 0x88, 0, 0x10, 1 }, A[6] = { 0x200, 0x200, 0x200, 0x100, 0x10, 1 }; unsigned k = sym_choose(kinds, "geometry"); Any a = { pe64, R[k], V[k], A[k] }; return a; }
enum { ANY_VA = 0x1000, ANY_HDR = 0x200 };
static uint32_t any_end(const Any& a) { uint32_t n = a.vsize ? a.vsize : a.raw; return ANY_VA + ((n + a.align - 1) & ~(a.align - 1)); }
// headers, then the section's data (the file ends with it)
static std::string any_file(const Any& a, unsigned dir, uint32_t rva, uint32_t size) { Layout l = mkLayout(a.pe64, 1, 16); std::string f(0x200 + a.raw, 0); fillHeaders(f, l); put32(f, l.lf + H_SALIGN, a.align); put32(f, l.lf + H_FALIGN, a.align < 0x200 ? a.align : 0x200); put32(f, l.lf + H_HDRSIZE, ANY_HDR); put32(f, l.lf + H_IMGSIZE, any_end(a)); unsigned o = l.sec(0); put32(f, o + S_VSIZE, a.vsize); put32(f, o + S_VA, ANY_VA); put32(f, o + S_RAWSIZE, a.raw); put32(f, o + S_RAWPTR, 0x200); put32(f, l.dirs() + 8 * dir, rva); put32(f, l.dirs() + 8 * dir + 4, size); return f; }
static uint32_t any_off(uint32_t rva) { return rva >= ANY_VA ? rva - ANY_VA + 0x200 : rva; }
static pe_base any_open(const std::string& f) { std::istringstream in(f); return pe_base(pe_factory::create_pe(in)); }
// an address at which n bytes just fit or do not fit in front of, or behind, each border: zero, the headers' end, the start of the section, the end of its data, the end of its addresses, the last address
static uint32_t any_rva(const Any& a, uint32_t n, const char* nm) { uint32_t d = a.vsize && a.vsize < a.raw ? a.vsize : a.raw; uint32_t B[6] = { 0, ANY_HDR, ANY_VA, ANY_VA + d, any_end(a), 0 }, O[7] = { 0u - n - 1, 0u - n, 1u - n, 0u - 1, 0, 1, 4 }; unsigned k = sym_choose(6, nm), o = sym_choose(k == 0 || k == 2 ? 4 : k == 5 ? 4 : 6, nm); return B[k] + O[k == 0 || k == 2 ? o + 3 : o]; }
// makes the n bytes at the address arbitrary, as far as they are in the section's data or in the headers behind the section table
static void any_bytes(std::string& f, uint32_t rva, uint32_t n, const char* nm) { uint32_t o = any_off(rva), e = o + n; if (o < 0x180) o = 0x180; if (e > f.size()) e = f.size(); if (o < e) symbytes(f, o, e - o, nm); }
static volatile uint32_t any_sink;
