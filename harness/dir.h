// Images with sections for directory data, and an independent view of their bytes.
#pragma once
#include "img.h"
#include "pe_directory.h"
// sections at consecutive addresses with raw data of the given lengths (file aligned sizes, 0x200) and a mark byte in every position
static inline pe_base dirimage(bool pe64, unsigned n, const unsigned* len, uint32_t salign = 0x1000)
{
    pe_base p = mkimage(pe64, salign); p.set_file_alignment(0x200); uint32_t va = 0x1000;
    for (unsigned i = 0; i < n; i++) { std::string d(len[i], (char)(0xd0 + i)); uint32_t rs = (len[i] + 0x1ff) & ~0x1ffu; section s; attach(p, va, rs ? rs : 1, rs ? 0x400 : 0, rs, d); va += ((rs ? rs : 1) + salign - 1) & ~(salign - 1); }
    p.update_image_size(); return p;
}
// the bytes mapped at [rva, rva+n): the section data, zeros behind it; false when outside every section
static inline bool bytes_at(const pe_base& p, uint32_t rva, size_t n, std::string& out)
{
    const section_list& l = p.get_image_sections(); uint32_t sa = p.get_section_alignment();
    for (size_t i = 0; i < l.size(); i++) {
        uint32_t va = l[i].get_virtual_address(), b = l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), e = (b + sa - 1) & ~(sa - 1); const std::string& d = l[i].get_raw_data();
        if (rva >= va && rva - va < e && n <= e - (rva - va)) { uint32_t o = rva - va; out = o < d.size() ? d.substr(o, n) : std::string(); out.resize(n, 0); return true; }
    }
    return false;
}
static inline uint32_t u32_at(const pe_base& p, uint32_t rva) { std::string s; if (!bytes_at(p, rva, 4, s)) { sym_assert(0, "written structures lie in a section"); sym_done(); } return get32(s, 0); }
static inline uint16_t u16_at(const pe_base& p, uint32_t rva) { std::string s; if (!bytes_at(p, rva, 2, s)) { sym_assert(0, "written structures lie in a section"); sym_done(); } return get16(s, 0); }
static inline uint64_t u64_at(const pe_base& p, uint32_t rva) { std::string s; if (!bytes_at(p, rva, 8, s)) { sym_assert(0, "written structures lie in a section"); sym_done(); } return get64(s, 0); }
static inline uint64_t ptr_at(const pe_base& p, uint32_t rva, bool pe64) { return pe64 ? u64_at(p, rva) : u32_at(p, rva); }
// does the NUL-terminated string at rva equal s
static inline int str_at(const pe_base& p, uint32_t rva, const std::string& s) { std::string t; if (!bytes_at(p, rva, s.size() + 1, t)) return 0; return sym_eqmem(t.data(), s.c_str(), s.size() + 1); }
static inline int eqs(const std::string& a, const std::string& b) { return a.size() == b.size() && sym_eqmem(a.data(), b.data(), a.size()); }
// n symbolic characters, none of them NUL
static inline std::string sym_name(size_t n, const char* nm) { std::string s = sym_str(n, nm); bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (s[i] != 0); sym_assume(ok); return s; }
static inline std::string raw40(const section& s) { return std::string((const char*)&s.get_raw_header(), 40); }
struct Others { std::vector<std::string> h, d; unsigned skip; };
static inline Others others(const pe_base& p, unsigned skip) { Others o; o.skip = skip; for (size_t i = 0; i < p.get_image_sections().size(); i++) { o.h.push_back(raw40(p.get_image_sections()[i])); o.d.push_back(p.get_image_sections()[i].get_raw_data()); } return o; }
static inline bool others_kept(const pe_base& p, const Others& o) { if (p.get_image_sections().size() != o.h.size()) return false; for (size_t i = 0; i < o.h.size(); i++) if (i != o.skip) { if (!eqs(o.h[i], raw40(p.get_image_sections()[i])) || !eqs(o.d[i], p.get_image_sections()[i].get_raw_data())) return false; } return true; }
// section extents do not overlap and the image size covers them
static inline bool layout_ok(const pe_base& p)
{
    uint32_t end = 0, sa = p.get_section_alignment(); const section_list& l = p.get_image_sections();
    for (size_t i = 0; i < l.size(); i++) { uint32_t va = l[i].get_virtual_address(), b = l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), e = (b + sa - 1) & ~(sa - 1); if (i && va != end) return false; end = va + e; if (l[i].get_raw_data().size() > e) return false; }
    return p.get_size_of_image() == end;
}
