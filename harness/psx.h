// Symbolic API used by the harnesses.  Under psx these are intrinsics; in the native replay build
// they are implemented by native.cpp, which feeds back one concrete counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
extern "C" {
void sym_make(void* p, size_t n, const char* name);   // n fresh symbolic bytes
void sym_assume_(int c);
void sym_assert_(int c, const char* msg);
void sym_reach(const char* id);                        // reachability witness
uint64_t sym_concretize(uint64_t v);                   // case split over every feasible value
int sym_eqmem(const void* a, const void* b, size_t n); // all bytes equal, as one formula
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
void sym_print(const char* n, uint64_t v);
void sym_done(void);
void sym_bound(const char* why);
int sym_engine(void);                                  // 1 under psx, 0 natively
int sym_forkptr(int on);
}
#define sym_assume(c) sym_assume_((c) ? 1 : 0)
#define sym_assert(c, msg) sym_assert_((c) ? 1 : 0, msg)
static inline uint8_t sym_u8(const char* n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char* n) { uint16_t v; sym_make(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char* n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char* n) { uint64_t v; sym_make(&v, 8, n); return v; }
static inline bool sym_bool(const char* n) { uint8_t v; sym_make(&v, 1, n); sym_assume_(v < 2); return v != 0; }
// a case split over 0..n-1
static inline unsigned sym_choose(unsigned n, const char* nm) { uint8_t v; sym_make(&v, 1, nm); sym_assume_(v < n); return (unsigned)sym_concretize(v); }
static inline std::string sym_str(size_t n, const char* nm) { std::string s(n, '\0'); if (n) sym_make(&s[0], n, nm); return s; }
