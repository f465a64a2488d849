// In-memory images and header snapshots.
#pragma once
#include "hdr.h"
static inline pe_base mkimage(bool pe64, uint32_t salign = 0x1000) { if (pe64) return pe_base(pe_properties_64(), salign); return pe_base(pe_properties_32(), salign); }
static inline std::string hdrs(const pe_base& p) { return std::string(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); }
// attaches a section with exactly this geometry (no library arithmetic)
static inline section& attach(pe_base& p, uint32_t va, uint32_t vsize, uint32_t rawptr, uint32_t rawsize, const std::string& data)
{
    section s; s.set_raw_data(data); s.set_virtual_address(va); s.set_virtual_size(vsize); s.set_pointer_to_raw_data(rawptr); s.set_size_of_raw_data(rawsize); s.set_characteristics(0xe0000020);
    p.get_image_sections().push_back(s); p.update_number_of_sections(); return p.get_image_sections().back();
}
// all bytes equal except [a,a+n)
static inline int same_except(const std::string& x, const std::string& y, size_t a, size_t n, size_t b = 0, size_t m = 0)
{
    if (x.size() != y.size()) return 0;
    std::string u = x, v = y; for (size_t i = 0; i < n; i++) { u[a + i] = 0; v[a + i] = 0; } for (size_t i = 0; i < m; i++) { u[b + i] = 0; v[b + i] = 0; }
    return sym_eqmem(u.data(), v.data(), u.size());
}
#define THROWS(stmt) ([&]() -> bool { try { stmt; return false; } catch (const pe_exception&) { return true; } }())
