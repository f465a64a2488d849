// C12: alignment and arithmetic helpers, all 32-bit operands.
#include "psx.h"
#include "pe_base.h"
using namespace pe_bliss;

extern "C" void c12_align() {
  uint32_t x = sym_u32("x"); unsigned k = sym_choose(32, "log2align");
  uint32_t a = 1u << k;
  uint32_t d = pe_utils::align_down(x, a);
  sym_assert((d & (a - 1)) == 0, "align_down gives a multiple");
  sym_assert(d <= x && x - d < a, "align_down gives the nearest multiple below");
  uint64_t up = (((uint64_t)x + a - 1) >> k) << k;
  if (up <= 0xffffffffu) {
    uint32_t u = pe_utils::align_up(x, a);
    sym_assert(u == (uint32_t)up, "align_up gives the nearest multiple above");
    sym_reach("aligned");
  }
  uint64_t u64v = pe_utils::align_up((uint64_t)x, a);
  sym_assert(u64v == up, "64-bit align_up is exact");
}
extern "C" void c12_align64() {
  uint64_t x = sym_u64("x"); unsigned k = sym_choose(32, "log2align"); uint32_t a = 1u << k;
  uint64_t d = pe_utils::align_down(x, a);
  sym_assert((d & (a - 1)) == 0 && d <= x && x - d < a, "64-bit align_down is exact");
  sym_assume(x <= 0xffffffff00000000ull);
  uint64_t u = pe_utils::align_up(x, a);
  sym_assert((u & (a - 1)) == 0 && u >= x && u - x < a, "64-bit align_up is exact");
  sym_reach("align64");
}
extern "C" void c12_pow2() {
  uint32_t x = sym_u32("x"); bool r = pe_utils::is_power_of_2(x);
  bool ref = false; for (int i = 0; i < 32; i++) ref |= x == (1u << i);
  if (x != 0) { sym_assert(r == ref, "power-of-two test is exact for non-zero values"); sym_reach("pow2"); }
}
extern "C" void c12_sum() {
  uint32_t a = sym_u32("a"), b = sym_u32("b");
  sym_assert(pe_utils::is_sum_safe(a, b) == ((uint64_t)a + b <= 0xffffffffull), "sum-safe test is exact"); sym_reach("sum");
}
extern "C" void c12_nullterm() {
  unsigned n = sym_choose(9, "len"); char* p = new char[n + 1]; sym_make(p, n, "data"); char* q = new char[n ? n : 1]; memcpy(q, p, n);
  bool ref = false; for (unsigned i = 0; i < n; i++) ref |= p[i] == 0;
  sym_assert(pe_utils::is_null_terminated(q, n) == ref, "null-termination test (bytes) is exact");
  bool ref2 = false; for (unsigned i = 0; i + 1 < n; i += 2) ref2 |= (p[i] == 0) & (p[i + 1] == 0);
  unicode16_t w[5] = { 0, 0, 0, 0, 0 }; memcpy(w, p, n);
  sym_assert(pe_utils::is_null_terminated(w, n) == ref2, "null-termination test (16-bit) is exact");
  bool ref4 = false; for (unsigned i = 0; i + 3 < n; i += 4) ref4 |= (p[i] == 0) & (p[i + 1] == 0) & (p[i + 2] == 0) & (p[i + 3] == 0);
  uint32_t v[3] = { 0, 0, 0 }; memcpy(v, p, n);
  sym_assert(pe_utils::is_null_terminated(v, n) == ref4, "null-termination test (32-bit) is exact");
  sym_reach("nullterm");
}
extern "C" void c12_strip() {
  unsigned n = sym_choose(7, "len"); std::string s = sym_str(n, "s"); std::string t = s; pe_utils::strip_nullbytes(t);
  size_t m = n; while (m && s[m - 1] == 0) m--;
  sym_assert(t.length() == m && sym_eqmem(t.data(), s.data(), m), "trailing zero bytes and only those are stripped");
  sym_reach("strip");
}
