// Environment models linked into the bitcode that psx executes: the parts of libstdc++/glibc that
// live in shared objects.  Templates are instantiated from the real headers; only what has no
// header source (red-black tree rebalancing, exception objects, locale set-up, iconv, integer
// formatting facets) is written here.  Never linked into the native replay build.
#include <string>
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <locale>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <cstdio>
#include <cctype>
#include <cwctype>
#include <vector>
#include <algorithm>
#include <cstring>
#include <cstdint>
#include <cwchar>
#include <cstdlib>
#include <errno.h>

// ---- real header templates, instantiated here -----------------------------
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
template class std::basic_ios<char>;
template class std::basic_ios<wchar_t>;
template class std::basic_streambuf<char>;
template class std::basic_streambuf<wchar_t>;
template class std::basic_istream<char>;
template class std::basic_istream<wchar_t>;
template class std::basic_ostream<char>;
template class std::basic_ostream<wchar_t>;
template class std::basic_iostream<char>;
template class std::basic_iostream<wchar_t>;
template class std::basic_stringbuf<char>;
template class std::basic_stringbuf<wchar_t>;
template class std::basic_stringstream<char>;
template class std::basic_stringstream<wchar_t>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<wchar_t>;
template class std::basic_ostringstream<wchar_t>;
namespace std {
template wostream& __ostream_insert(wostream&, const wchar_t*, streamsize);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
}

// ---- exception objects: 16 bytes {vptr, message}, the message is not modelled
#define SYM(n) __asm__(n)
struct ExObj { void* vptr; void* msg; };
extern "C" {
extern char vt_rt[] SYM("_ZTVSt13runtime_error");
}
#define EXC_CTOR(cls) \
  void c1_##cls(ExObj* o, const char*) SYM("_ZNSt" #cls "C1EPKc"); void c1_##cls(ExObj* o, const char*) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void c2_##cls(ExObj* o, const char*) SYM("_ZNSt" #cls "C2EPKc"); void c2_##cls(ExObj* o, const char*) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void s1_##cls(ExObj* o, const std::string&) SYM("_ZNSt" #cls "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void s1_##cls(ExObj* o, const std::string&) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void s2_##cls(ExObj* o, const std::string&) SYM("_ZNSt" #cls "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void s2_##cls(ExObj* o, const std::string&) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void cc1_##cls(ExObj* o, const ExObj&) SYM("_ZNSt" #cls "C1ERKS_"); void cc1_##cls(ExObj* o, const ExObj&) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void cc2_##cls(ExObj* o, const ExObj&) SYM("_ZNSt" #cls "C2ERKS_"); void cc2_##cls(ExObj* o, const ExObj&) { o->vptr = (void*)fake_vt; o->msg = 0; } \
  void d0_##cls(ExObj* o) SYM("_ZNSt" #cls "D0Ev"); void d0_##cls(ExObj*) {} \
  void d1_##cls(ExObj* o) SYM("_ZNSt" #cls "D1Ev"); void d1_##cls(ExObj*) {} \
  void d2_##cls(ExObj* o) SYM("_ZNSt" #cls "D2Ev"); void d2_##cls(ExObj*) {}
static const char* fake_what(void*) { return "exception"; }
static void fake_dtor(void*) {}
static void* const fake_vtable[] = {(void*)0, (void*)0, (void*)&fake_dtor, (void*)&fake_dtor, (void*)&fake_what, (void*)&fake_what};
static void* const* const fake_vt = fake_vtable + 2;
extern "C" {
EXC_CTOR(13runtime_error) EXC_CTOR(11logic_error) EXC_CTOR(12out_of_range) EXC_CTOR(12length_error) EXC_CTOR(16invalid_argument) EXC_CTOR(11range_error) EXC_CTOR(14overflow_error)
const char* what_re(void*) SYM("_ZNKSt13runtime_error4whatEv"); const char* what_re(void*) { return "exception"; }
const char* what_le(void*) SYM("_ZNKSt11logic_error4whatEv"); const char* what_le(void*) { return "exception"; }
void ex_d2(void*) SYM("_ZNSt9exceptionD2Ev"); void ex_d2(void*) {}
void ex_d1(void*) SYM("_ZNSt9exceptionD1Ev"); void ex_d1(void*) {}
void ba_d1(void*) SYM("_ZNSt9bad_allocD1Ev"); void ba_d1(void*) {}
void* __cxa_allocate_exception(size_t) throw();
void __cxa_throw(void*, void*, void (*)(void*));
extern char ti_fail[] SYM("_ZTINSt8ios_base7failureB5cxx11E");
extern char ti_syserr[] SYM("_ZTISt12system_error");
extern char ti_rt[] SYM("_ZTISt13runtime_error");
extern char ti_le[] SYM("_ZTISt11logic_error");
extern char ti_len[] SYM("_ZTISt12length_error");
extern char ti_oor[] SYM("_ZTISt12out_of_range");
extern char ti_inv[] SYM("_ZTISt16invalid_argument");
extern char ti_ba[] SYM("_ZTISt9bad_alloc");
extern char ti_bc[] SYM("_ZTISt8bad_cast");
extern char ti_ban[] SYM("_ZTISt20bad_array_new_length");
extern char ti_ex[] SYM("_ZTISt9exception");
__attribute__((used)) void* const psx_keep_typeinfos[] = {ti_fail, ti_syserr, ti_rt, ti_le, ti_len, ti_oor, ti_inv, ti_ba, ti_bc, ti_ban, ti_ex};
}
static void throw_as(void* ti) { ExObj* o = (ExObj*)__cxa_allocate_exception(64); o->vptr = (void*)fake_vt; o->msg = 0; __cxa_throw(o, ti, 0); __builtin_unreachable(); }
namespace std {
void __throw_bad_exception() { throw_as(ti_ex); __builtin_unreachable(); }
void __throw_bad_alloc() { throw_as(ti_ba); __builtin_unreachable(); }
void __throw_bad_array_new_length() { throw_as(ti_ban); __builtin_unreachable(); }
void __throw_bad_cast() { throw_as(ti_bc); __builtin_unreachable(); }
void __throw_logic_error(const char*) { throw_as(ti_le); __builtin_unreachable(); }
void __throw_length_error(const char*) { throw_as(ti_len); __builtin_unreachable(); }
void __throw_out_of_range(const char*) { throw_as(ti_oor); __builtin_unreachable(); }
void __throw_out_of_range_fmt(const char*, ...) { throw_as(ti_oor); __builtin_unreachable(); }
void __throw_invalid_argument(const char*) { throw_as(ti_inv); __builtin_unreachable(); }
void __throw_runtime_error(const char*) { throw_as(ti_rt); __builtin_unreachable(); }
void __throw_ios_failure(const char*) { throw_as(ti_fail); __builtin_unreachable(); }
void __throw_ios_failure(const char*, int) { throw_as(ti_fail); __builtin_unreachable(); }
}

// ---- ios_base / locale: a null locale whose facets are never consulted -----
struct FakeFacet { void* const* vptr; };
static wchar_t fake_widen(void*, char c) { return (unsigned char)c; }
static void* const facet_vtbl[] = {(void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen,
  (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen, (void*)&fake_widen};
static FakeFacet wfacet = {facet_vtbl};
static const void* narrow_ctype() { // the "C" ctype<char>: its widen and narrow tables are the identity
  static uint64_t room[(sizeof(std::ctype<char>) + 7) / 8]; std::ctype<char>* c = reinterpret_cast<std::ctype<char>*>(room);
  if (!c->_M_widen_ok) { c->_M_widen_ok = 1; c->_M_narrow_ok = 1; for (unsigned i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; } }
  return c;
}
extern "C" {
void loc_c1(void** l) SYM("_ZNSt6localeC1Ev"); void loc_c1(void** l) { *l = 0; }
void loc_cc1(void** l, void** r) SYM("_ZNSt6localeC1ERKS_"); void loc_cc1(void** l, void** r) { *l = *r; }
void loc_d1(void*) SYM("_ZNSt6localeD1Ev"); void loc_d1(void*) {}
void* loc_as(void* a, void* b) SYM("_ZNSt6localeaSERKS_"); void* loc_as(void* a, void*) { return a; }
void ios_d2(void*) SYM("_ZNSt8ios_baseD2Ev"); void ios_d2(void*) {}
void ios_d1(void*) SYM("_ZNSt8ios_baseD1Ev"); void ios_d1(void*) {}
}
namespace psxrt { struct IosAccess; }
// ios_base layout is reached through its own (protected) members
struct IosPeer : public std::ios_base {
  void init_() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_exception = goodbit; _M_streambuf_state = goodbit; _M_callbacks = 0; _M_word_size = _S_local_word_size; _M_word = _M_local_word; }
};
extern "C" {
void ios_c2(void* p) SYM("_ZNSt8ios_baseC2Ev"); void ios_c2(void* p) { ((IosPeer*)p)->init_(); }
void ios_init(void* p) SYM("_ZNSt8ios_base7_M_initEv"); void ios_init(void* p) { ((IosPeer*)p)->init_(); }
const void* f1(const void*) SYM("_ZSt15__try_use_facetISt5ctypeIwEEPKT_RKSt6locale"); const void* f1(const void*) { return &wfacet; }
const void* f2(const void*) SYM("_ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale"); const void* f2(const void*) { return narrow_ctype(); }
const void* f3(const void*) SYM("_ZSt15__try_use_facetISt7num_putIwSt19ostreambuf_iteratorIwSt11char_traitsIwEEEEPKT_RKSt6locale"); const void* f3(const void*) { return &wfacet; }
const void* f4(const void*) SYM("_ZSt15__try_use_facetISt7num_getIwSt19istreambuf_iteratorIwSt11char_traitsIwEEEEPKT_RKSt6locale"); const void* f4(const void*) { return &wfacet; }
const void* f5(const void*) SYM("_ZSt15__try_use_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale"); const void* f5(const void*) { return 0; }
const void* f6(const void*) SYM("_ZSt15__try_use_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale"); const void* f6(const void*) { return 0; }
}
// integer formatting / parsing on wide streams (dec/hex, width, fill, right adjustment)
template <class C> static void put_num(std::basic_ostream<C>& os, unsigned long v, bool neg) {
  typename std::basic_ostream<C>::sentry s(os); if (!s) return;
  unsigned base = (os.flags() & std::ios_base::basefield) == std::ios_base::hex ? 16 : (os.flags() & std::ios_base::basefield) == std::ios_base::oct ? 8 : 10;
  C buf[28]; int n = 0; bool up = os.flags() & std::ios_base::uppercase, zero = v == 0;
  do { unsigned d = v % base; buf[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10); v /= base; } while (v);
  if ((os.flags() & std::ios_base::showbase) && !zero) { if (base == 16) { buf[n++] = up ? 'X' : 'x'; buf[n++] = '0'; } else if (base == 8) buf[n++] = '0'; }
  if (neg) buf[n++] = '-'; else if (base == 10 && (os.flags() & std::ios_base::showpos)) buf[n++] = '+';
  std::streamsize w = os.width(); std::ios_base::fmtflags adj = os.flags() & std::ios_base::adjustfield;
  C fill = 0; if (w > n) fill = os.fill();
  if (adj != std::ios_base::left) for (std::streamsize i = n; i < w; i++) os.rdbuf()->sputc(fill);
  for (int i = n; i--;) os.rdbuf()->sputc(buf[i]);
  if (adj == std::ios_base::left) for (std::streamsize i = n; i < w; i++) os.rdbuf()->sputc(fill);
  os.width(0);
}
template <class C> static void put_long(std::basic_ostream<C>& os, long v) {
  bool dec = (os.flags() & std::ios_base::basefield) != std::ios_base::hex && (os.flags() & std::ios_base::basefield) != std::ios_base::oct;
  if (dec && v < 0) put_num(os, 0ul - (unsigned long)v, true); else put_num(os, (unsigned long)v, false);
}
extern "C" {
std::wostream& wins_ul(std::wostream& os, unsigned long v) SYM("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertImEERS2_T_"); std::wostream& wins_ul(std::wostream& os, unsigned long v) { put_num(os, v, false); return os; }
std::wostream& wins_l(std::wostream& os, long v) SYM("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIlEERS2_T_"); std::wostream& wins_l(std::wostream& os, long v) { put_long(os, v); return os; }
std::wostream& wins_ull(std::wostream& os, unsigned long long v) SYM("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIyEERS2_T_"); std::wostream& wins_ull(std::wostream& os, unsigned long long v) { put_num(os, v, false); return os; }
std::wostream& wins_ll(std::wostream& os, long long v) SYM("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIxEERS2_T_"); std::wostream& wins_ll(std::wostream& os, long long v) { put_long(os, v); return os; }
std::ostream& ins_ul(std::ostream& os, unsigned long v) SYM("_ZNSo9_M_insertImEERSoT_"); std::ostream& ins_ul(std::ostream& os, unsigned long v) { put_num(os, v, false); return os; }
std::ostream& ins_l(std::ostream& os, long v) SYM("_ZNSo9_M_insertIlEERSoT_"); std::ostream& ins_l(std::ostream& os, long v) { put_long(os, v); return os; }
std::ostream& ins_ull(std::ostream& os, unsigned long long v) SYM("_ZNSo9_M_insertIyEERSoT_"); std::ostream& ins_ull(std::ostream& os, unsigned long long v) { put_num(os, v, false); return os; }
std::ostream& ins_ll(std::ostream& os, long long v) SYM("_ZNSo9_M_insertIxEERSoT_"); std::ostream& ins_ll(std::ostream& os, long long v) { put_long(os, v); return os; }
}
// skipws, sign, base from flags (hex/dec); overflow saturates and sets failbit as num_get does
template <class C, class T> static void get_num(std::basic_istream<C>& is, T& v, unsigned long long top) {
  typename std::basic_istream<C>::sentry s(is, true); std::ios_base::iostate err = std::ios_base::goodbit;
  if (!s) return;
  typedef std::char_traits<C> TR; std::basic_streambuf<C>* sb = is.rdbuf(); const typename TR::int_type eof = TR::eof();
  typename TR::int_type c = sb->sgetc();
  while (c != eof && (c == ' ' || (c >= 9 && c <= 13))) { c = sb->snextc(); }
  bool neg = false; if (c != eof && (c == '+' || c == '-')) { neg = c == '-'; c = sb->snextc(); }
  unsigned base = (is.flags() & std::ios_base::basefield) == std::ios_base::hex ? 16 : 10;
  unsigned long long acc = 0; bool any = false, over = false;
  if (base == 16 && c == '0') { any = true; c = sb->snextc(); if (c == 'x' || c == 'X') { any = false; c = sb->snextc(); } }
  while (c != eof) {
    int d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
    any = true;
    if (top <= 0xffffffffull) { acc = acc * base + d; if (acc > top) { over = true; acc = top; } }
    else if (over || acc > (top - d) / base) { over = true; acc = top; } else acc = acc * base + d;
    c = sb->snextc();
  }
  if (c == eof) err |= std::ios_base::eofbit;
  if (!any) { v = 0; err |= std::ios_base::failbit; }
  else if (over) { v = (T)top; err |= std::ios_base::failbit; }
  else v = neg ? (T)0 - (T)acc : (T)acc;
  if (err) is.setstate(err);
}
extern "C" {
std::wistream& wext_us(std::wistream& is, unsigned short& v) SYM("_ZNSt13basic_istreamIwSt11char_traitsIwEE10_M_extractItEERS2_RT_"); std::wistream& wext_us(std::wistream& is, unsigned short& v) { get_num<wchar_t, unsigned short>(is, v, 0xffff); return is; }
std::wistream& wext_ui(std::wistream& is, unsigned& v) SYM("_ZNSt13basic_istreamIwSt11char_traitsIwEE10_M_extractIjEERS2_RT_"); std::wistream& wext_ui(std::wistream& is, unsigned& v) { get_num<wchar_t, unsigned>(is, v, 0xffffffffu); return is; }
std::wistream& wext_ul(std::wistream& is, unsigned long& v) SYM("_ZNSt13basic_istreamIwSt11char_traitsIwEE10_M_extractImEERS2_RT_"); std::wistream& wext_ul(std::wistream& is, unsigned long& v) { get_num<wchar_t, unsigned long>(is, v, ~0ull); return is; }
std::istream& ext_us(std::istream& is, unsigned short& v) SYM("_ZNSi10_M_extractItEERSiRT_"); std::istream& ext_us(std::istream& is, unsigned short& v) { get_num<char, unsigned short>(is, v, 0xffff); return is; }
std::istream& ext_ui(std::istream& is, unsigned& v) SYM("_ZNSi10_M_extractIjEERSiRT_"); std::istream& ext_ui(std::istream& is, unsigned& v) { get_num<char, unsigned>(is, v, 0xffffffffu); return is; }
std::istream& ext_ul(std::istream& is, unsigned long& v) SYM("_ZNSi10_M_extractImEERSiRT_"); std::istream& ext_ul(std::istream& is, unsigned long& v) { get_num<char, unsigned long>(is, v, ~0ull); return is; }
}
// text extraction and stream copying
template <class C> static bool is_sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
template <class C> static void get_char(std::basic_istream<C>& is, C& v) {
  typename std::basic_istream<C>::sentry s(is, true); if (!s) return; typedef std::char_traits<C> TR; typename TR::int_type c = is.rdbuf()->sgetc();
  if (is.flags() & std::ios_base::skipws) while (c != TR::eof() && is_sp(c)) c = is.rdbuf()->snextc();
  if (c == TR::eof()) is.setstate(std::ios_base::eofbit | std::ios_base::failbit); else { v = (C)c; is.rdbuf()->sbumpc(); }
}
template <class C> static void get_word(std::basic_istream<C>& is, std::basic_string<C>& v) {
  typename std::basic_istream<C>::sentry s(is, true); if (!s) return; typedef std::char_traits<C> TR; typename TR::int_type c = is.rdbuf()->sgetc(); v.erase();
  if (is.flags() & std::ios_base::skipws) while (c != TR::eof() && is_sp(c)) c = is.rdbuf()->snextc();
  std::streamsize w = is.width(); bool any = false;
  while (c != TR::eof() && !is_sp(c) && !(w > 0 && (std::streamsize)v.size() >= w)) { v += (C)c; any = true; c = is.rdbuf()->snextc(); }
  is.width(0); std::ios_base::iostate e = std::ios_base::goodbit; if (c == TR::eof()) e |= std::ios_base::eofbit; if (!any) e |= std::ios_base::failbit; if (e) is.setstate(e);
}
template <class C> static void get_line(std::basic_istream<C>& is, std::basic_string<C>& v, C d) {
  typename std::basic_istream<C>::sentry s(is, true); if (!s) return; typedef std::char_traits<C> TR; typename TR::int_type c = is.rdbuf()->sgetc(); v.erase(); bool any = false;
  while (c != TR::eof() && c != TR::to_int_type(d)) { v += (C)c; any = true; c = is.rdbuf()->snextc(); }
  if (c == TR::eof()) is.setstate(any ? std::ios_base::eofbit : std::ios_base::eofbit | std::ios_base::failbit); else is.rdbuf()->sbumpc();
}
namespace std {
extern "C" {
istream& tx1(istream& is, char& v) SYM("_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_"); istream& tx1(istream& is, char& v) { get_char(is, v); return is; }
wistream& tx2(wistream& is, wchar_t& v) SYM("_ZStrsIwSt11char_traitsIwEERSt13basic_istreamIT_T0_ES6_RS3_"); wistream& tx2(wistream& is, wchar_t& v) { get_char(is, v); return is; }
istream& tx3(istream& is, string& v) SYM("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); istream& tx3(istream& is, string& v) { get_word(is, v); return is; }
wistream& tx4(wistream& is, wstring& v) SYM("_ZStrsIwSt11char_traitsIwESaIwEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); wistream& tx4(wistream& is, wstring& v) { get_word(is, v); return is; }
istream& tx5(istream& is, string& v, char d) SYM("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"); istream& tx5(istream& is, string& v, char d) { get_line(is, v, d); return is; }
wistream& tx6(wistream& is, wstring& v, wchar_t d) SYM("_ZSt7getlineIwSt11char_traitsIwESaIwEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"); wistream& tx6(wistream& is, wstring& v, wchar_t d) { get_line(is, v, d); return is; }
istream& tx7(istream& is, string& v) SYM("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); istream& tx7(istream& is, string& v) { get_line(is, v, '\n'); return is; }
wistream& tx8(wistream& is, wstring& v) SYM("_ZSt7getlineIwSt11char_traitsIwESaIwEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); wistream& tx8(wistream& is, wstring& v) { get_line(is, v, L'\n'); return is; }
}
template <> streamsize __copy_streambufs_eof(streambuf* in, streambuf* out, bool& ineof) {
  streamsize n = 0; ineof = true; int c = in->sgetc();
  while (c != EOF) { if (out->sputc((char)c) == EOF) { ineof = false; break; } ++n; c = in->snextc(); }
  return n;
}
bool uncaught_exception() throw() { return false; }
int uncaught_exceptions() throw() { return 0; }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731}; for (size_t i = 0; i < 16; i++) if (pr[i] >= n) { _M_next_resize = pr[i]; return pr[i]; } _M_next_resize = n; return n; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt || bkt < 2) return std::make_pair(true, _M_next_bkt(std::max(elt + ins + 1, bkt * 2))); return std::make_pair(false, (size_t)0); }
}
}
// character classes and C strings ("C" locale)
extern "C" {
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t wcsnlen(const wchar_t* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int iswspace(wint_t c) { return isspace(c); }
int iswdigit(wint_t c) { return isdigit(c); }
int iswxdigit(wint_t c) { return isxdigit(c); }
wint_t towupper(wint_t c) { return c < 128 ? toupper(c) : c; }
wint_t towlower(wint_t c) { return c < 128 ? tolower(c) : c; }
#define NM(n) SYM(#n)
char* m_strchr(const char* s, int c) NM(strchr); char* m_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* m_strrchr(const char* s, int c) NM(strrchr); char* m_strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
wchar_t* m_wcschr(const wchar_t* s, wchar_t c) NM(wcschr); wchar_t* m_wcschr(const wchar_t* s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t*)s; if (!*s) return 0; } }
char* m_strstr(const char* s, const char* t) NM(strstr); char* m_strstr(const char* s, const char* t) { for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char*)s; if (!*s) return 0; } }
char* m_strncat(char* d, const char* s, size_t n) NM(strncat); char* m_strncat(char* d, const char* s, size_t n) { char* p = d; while (*p) p++; for (; n && *s; n--) *p++ = *s++; *p = 0; return d; }
wchar_t* m_wcscpy(wchar_t* d, const wchar_t* s) NM(wcscpy); wchar_t* m_wcscpy(wchar_t* d, const wchar_t* s) { wchar_t* p = d; while ((*p++ = *s++)); return d; }
wchar_t* m_wcsncpy(wchar_t* d, const wchar_t* s, size_t n) NM(wcsncpy); wchar_t* m_wcsncpy(wchar_t* d, const wchar_t* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int m_wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) NM(wcsncmp); int m_wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
}
namespace std {
void __detail::_List_node_base::swap(__detail::_List_node_base& x, __detail::_List_node_base& y) throw() {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void __detail::_List_node_base::_M_reverse() throw() { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}

// ---- red-black trees (libstdc++ tree.cc algorithms) -------------------------
namespace std {
static _Rb_tree_node_base* inc_(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc_(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  // unlinking without recolouring: an ordered (possibly unbalanced) tree, which is all std::map's
  // observable behaviour depends on
  _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& lm = header._M_left; _Rb_tree_node_base*& rm = header._M_right;
  if (z == lm) lm = (z->_M_right || z->_M_parent != &header) ? inc_(z) : &header;
  if (z == rm) { if (z->_M_left || z->_M_parent != &header) { _Rb_tree_node_base* t = z->_M_left; if (t) { while (t->_M_right) t = t->_M_right; rm = t; } else rm = z->_M_parent; } else rm = &header; }
  _Rb_tree_node_base *x, *y = z, *xp;
  if (!z->_M_left) x = z->_M_right; else if (!z->_M_right) x = z->_M_left;
  else {
    y = z->_M_right; while (y->_M_left) y = y->_M_left; // successor takes z's place
    x = y->_M_right; 
    if (y != z->_M_right) { xp = y->_M_parent; xp->_M_left = x; if (x) x->_M_parent = xp; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = z->_M_color; 
    for (_Rb_tree_node_base* q = root; q; q = 0) q->_M_color = _S_black;
    return z;
  }
  if (x) x->_M_parent = z->_M_parent;
  if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
  if (root) root->_M_color = _S_black;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
}

// ---- iconv between WCHAR_T and the two-byte encodings (compared with glibc over all code points for UCS-2) ----
// cd bits: 1 valid, 2 from wchar, 4 UTF-16, 8 big endian, 16 byte order mark, 32 //IGNORE, 64 //TRANSLIT
static uintptr_t psx_enc(const char* e) {
  static const struct { const char* n; uintptr_t f; } T[] = { {"UCS-2", 0}, {"UCS2", 0}, {"UCS-2LE", 0}, {"UCS-2BE", 8}, {"UTF-16LE", 4}, {"UTF16LE", 4}, {"UTF-16BE", 12}, {"UTF-16", 20}, {"UTF16", 20}, {"UNICODE", 16}, {"UNICODELITTLE", 0} };
  size_t n = 0; while (e[n] && !(e[n] == '/' && e[n + 1] == '/')) n++;
  for (auto& t : T) if (strlen(t.n) == n && !memcmp(t.n, e, n)) { uintptr_t f = t.f | 1; if (e[n]) { if (!strcmp(e + n, "//IGNORE")) f |= 32; else if (!strcmp(e + n, "//TRANSLIT")) f |= 64; } return f; }
  return 0;
}
extern "C" {
void* iconv_open(const char* to, const char* from) {
  uintptr_t f = 0; if (!strcmp(from, "WCHAR_T")) { f = psx_enc(to); if (f) f |= 2; } else if (!strcmp(to, "WCHAR_T") || !strcmp(to, "WCHAR_T//IGNORE") || !strcmp(to, "WCHAR_T//TRANSLIT")) f = psx_enc(from);
  if (f) return (void*)f;
  errno = EINVAL; return (void*)-1;
}
int iconv_close(void*) { return 0; }
static void psx_put(uintptr_t f, char*& o, uint16_t c) { if (f & 8) c = (uint16_t)(c << 8 | c >> 8); memcpy(o, &c, 2); o += 2; }
size_t iconv(void* cd, char** in, size_t* inl, char** out, size_t* outl) {
  if (!in || !*in) return 0; uintptr_t f = (uintptr_t)cd; size_t subst = 0; bool skipped = false;
  if (f & 2) {
    if (f & 16) { if (*outl < 2) { errno = E2BIG; return (size_t)-1; } psx_put(f & ~8ul, *out, 0xfeff); *outl -= 2; }
    while (*inl >= 4) { uint32_t c; memcpy(&c, *in, 4);
      if (!(f & 4) && (c >> 7) == (0xe0000 >> 7)) { *in += 4; *inl -= 4; continue; } // glibc skips language tags
      if ((c > 0xffff) | ((c >= 0xd800) & (c < 0xe000))) {
        if ((f & 4) && c > 0xffff && c < 0x110000) { if (*outl < 4) { errno = E2BIG; return (size_t)-1; } c -= 0x10000; psx_put(f, *out, (uint16_t)(0xd800 + (c >> 10))); psx_put(f, *out, (uint16_t)(0xdc00 + (c & 0x3ff))); *outl -= 4; *in += 4; *inl -= 4; continue; }
        if (f & 32) { skipped = true; *in += 4; *inl -= 4; continue; }
        if ((f & 64) && c > 0xffff && !(c >> 31)) { c = '?'; subst++; } else { errno = EILSEQ; return (size_t)-1; } }
      if (*outl < 2) { errno = E2BIG; return (size_t)-1; } psx_put(f, *out, (uint16_t)c); *in += 4; *inl -= 4; *outl -= 2; }
  } else {
    bool first = true;
    while (*inl >= 2) { uint16_t c; memcpy(&c, *in, 2); if (f & 8) c = (uint16_t)(c << 8 | c >> 8); if ((f & 16) && first && c == 0xfeff) { first = false; *in += 2; *inl -= 2; continue; } first = false; uint32_t o = c; size_t used = 2;
      if ((c >= 0xd800) & (c < 0xe000)) {
        if ((f & 4) && c < 0xdc00) { if (*inl < 4) { errno = EINVAL; return (size_t)-1; } uint16_t d; memcpy(&d, *in + 2, 2); if (f & 8) d = (uint16_t)(d << 8 | d >> 8); if ((d < 0xdc00) | (d > 0xdfff)) { errno = EILSEQ; return (size_t)-1; } o = 0x10000 + ((uint32_t)(c & 0x3ff) << 10) + (d & 0x3ff); used = 4; }
        else { errno = EILSEQ; return (size_t)-1; } }
      if (*outl < 4) { errno = E2BIG; return (size_t)-1; } memcpy(*out, &o, 4); *in += used; *inl -= used; *out += 4; *outl -= 4; }
  }
  if (*inl) { errno = EINVAL; return (size_t)-1; } if (skipped) { errno = EILSEQ; return (size_t)-1; } return subst;
}
}
extern "C" {
static int psx_errno;
int* __errno_location() throw() { return &psx_errno; }
}
