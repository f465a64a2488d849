// C29: conversion between wide strings and UCS-2 text.
#include "dir.h"
#include "utils.h"
static bool ok16(uint32_t c) { return (c <= 0xffff) & ((c & 0xfffff800) != 0xd800); }
static void wide(const std::wstring& w)
{
    bool ok = true; for (size_t i = 0; i < w.size(); i++) ok = ok & ok16((uint32_t)w[i]);
    u16string u; bool th = THROWS(u = pe_utils::to_ucs2(w)); sym_assert(th == !ok, "exactly strings of representable characters are converted"); if (th) { sym_reach("unrepresentable"); return; }
    sym_assert(u.size() == w.size(), "one unit per character"); if (u.size() != w.size()) return; bool same = true; for (size_t i = 0; i < w.size(); i++) same = same & ((uint32_t)u[i] == (uint32_t)w[i]); sym_assert(same, "each unit is the character");
    const uint8_t* b = (const uint8_t*)u.data(); bool le = true; for (size_t i = 0; i < w.size(); i++) le = le & (b[2 * i] == ((uint32_t)w[i] & 0xff)) & (b[2 * i + 1] == (((uint32_t)w[i] >> 8) & 0xff)); sym_assert(le, "units are little endian");
    std::wstring r; sym_assert(!THROWS(r = pe_utils::from_ucs2(u)), "the result can be converted back"); sym_assert(r.size() == w.size(), "length is restored"); same = r.size() == w.size(); for (size_t i = 0; same && i < w.size(); i++) same = same & (r[i] == w[i]); sym_assert(same, "characters are restored"); sym_reach("converted");
}
static void ucs(const u16string& u)
{
    bool ok = true; for (size_t i = 0; i < u.size(); i++) ok = ok & ok16(u[i]);
    std::wstring w; bool th = THROWS(w = pe_utils::from_ucs2(u)); sym_assert(th == !ok, "exactly text of representable characters is decoded"); if (th) { sym_reach("undecodable"); return; }
    sym_assert(w.size() == u.size(), "one character per unit"); if (u.size() != w.size()) return; bool same = true; for (size_t i = 0; i < w.size(); i++) same = same & ((uint32_t)u[i] == (uint32_t)w[i]); sym_assert(same, "each character is the unit");
    u16string r; sym_assert(!THROWS(r = pe_utils::to_ucs2(w)), "the result can be converted back"); same = r.size() == u.size(); for (size_t i = 0; same && i < u.size(); i++) same = same & (r[i] == u[i]); sym_assert(same, "units are restored"); sym_reach("decoded");
}
static std::wstring wchars(size_t n) { std::wstring w(n, 0); for (size_t i = 0; i < n; i++) w[i] = (wchar_t)sym_u32("char"); return w; }
extern "C" void c29_wide() { wide(wchars(sym_choose(5, "len"))); }
extern "C" void c29_wide8() { wide(wchars(5 + sym_choose(4, "len"))); }
extern "C" void c29_wide16() { wide(wchars(9 + sym_choose(8, "len"))); }
extern "C" void c29_ucs() { size_t n = sym_choose(5, "len"); u16string u(n, 0); for (size_t i = 0; i < n; i++) u[i] = sym_u16("unit"); ucs(u); }
extern "C" void c29_ucs8() { size_t n = 5 + sym_choose(4, "len"); u16string u(n, 0); for (size_t i = 0; i < n; i++) u[i] = sym_u16("unit"); ucs(u); }
// long strings, arbitrary characters at the start, in the middle and at the end
extern "C" void c29_long() { static const unsigned N[9] = { 31, 255, 256, 1023, 4096, 8191, 32768, 65535, 65537 }; unsigned n = N[sym_choose(9, "len")]; std::wstring w(n, L'w'); w[0] = (wchar_t)sym_u32("first"); w[n / 2] = (wchar_t)sym_u32("middle"); w[n - 1] = (wchar_t)sym_u32("last"); wide(w); }
extern "C" void c29_longucs() { static const unsigned N[9] = { 31, 255, 256, 1023, 4096, 8191, 32768, 65535, 65537 }; unsigned n = N[sym_choose(9, "len")]; u16string u(n, 'w'); u[0] = sym_u16("first"); u[n / 2] = sym_u16("middle"); u[n - 1] = sym_u16("last"); ucs(u); }
