// C10: header accessors: round trip and frame, over entirely symbolic headers.
#include "img.h"
static pe_base symimage(bool pe64, std::string& h)
{
    pe_base p = mkimage(pe64); size_t n = p.get_sizeof_nt_header(); char* q = p.get_nt_headers_ptr(); sym_make(q, n, "headers"); uint32_t cnt; memcpy(&cnt, q + (pe64 ? 132 : 116), 4); sym_assume(cnt <= 16);
    attach(p, 0x1000, 0x20, 0x200, 5, "abcde"); uint16_t ns = 1; memcpy(&q[H_NSEC], &ns, 2); h = hdrs(p); return p;
}
#define SECTION_KEPT() do { sym_assert(p.get_image_sections().size() == 1 && p.get_image_sections()[0].get_raw_data() == "abcde" && p.get_image_sections()[0].get_virtual_address() == 0x1000, "sections are untouched"); } while (0)
#define FIELD(T, off, setter, getter, name) do { T v; sym_make(&v, sizeof(T), "value"); p.setter(v); sym_assert((T)p.getter() == v, name " reads back"); h2 = hdrs(p); sym_assert(same_except(h, h2, off, sizeof(T)), name " changes only its field"); sym_assert(sym_eqmem(&h2[off], &v, sizeof(T)), name " is stored in its field"); } while (0)
static void fields(bool pe64)
{
    std::string h, h2; pe_base p = symimage(pe64, h);
    switch (sym_choose(11, "field")) {
        case 0: FIELD(uint32_t, H_EP, set_ep, get_ep, "entry point"); break;
        case 1: FIELD(uint16_t, H_CHAR, set_characteristics, get_characteristics, "characteristics"); break;
        case 2: FIELD(uint16_t, H_DLLCHAR, set_dll_characteristics, get_dll_characteristics, "DLL characteristics"); break;
        case 3: FIELD(uint32_t, H_CHECKSUM, set_checksum, get_checksum, "checksum"); break;
        case 4: FIELD(uint32_t, H_TIME, set_time_date_stamp, get_time_date_stamp, "timestamp"); break;
        case 5: FIELD(uint16_t, H_MACHINE, set_machine, get_machine, "machine"); break;
        case 6: FIELD(uint32_t, H_HDRSIZE, set_size_of_headers, get_size_of_headers, "size of headers"); break;
        case 7: FIELD(uint16_t, H_OPTSIZE, set_size_of_optional_header, get_size_of_optional_header, "size of optional header"); break;
        case 8: FIELD(uint32_t, H_BASEOFCODE, set_base_of_code, get_base_of_code, "base of code"); break;
        case 9: FIELD(uint16_t, H_SUBSYS, set_subsystem, get_subsystem, "subsystem"); sym_assert(p.is_console() == (get16(h2, H_SUBSYS) == 3) && p.is_gui() == (get16(h2, H_SUBSYS) == 2), "console/GUI tests agree with the subsystem"); break;
        case 10: { uint32_t v = sym_u32("value"); sym_assume(v <= 16); p.set_number_of_rvas_and_sizes(v); sym_assert(p.get_number_of_rvas_and_sizes() == v, "directory count reads back"); h2 = hdrs(p); sym_assert(same_except(h, h2, pe64 ? 132 : 116, 4), "directory count changes only its field"); break; }
    }
    SECTION_KEPT(); sym_reach("field");
}
extern "C" void c10_fields32() { fields(false); }
extern "C" void c10_fields64() { fields(true); }
#define WIDE(off32, off64, name, base) do { bool wide = sym_choose(2, "wide"); uint64_t v = wide ? sym_u64("value") : sym_u32("value"); if (wide) p.set_##base((uint64_t)v); else p.set_##base((uint32_t)v); \
    uint64_t w = pe64 ? v : (uint32_t)v; sym_assert(p.get_##base##_64() == w, name " reads back (64)"); sym_assert(p.get_##base##_32() == (uint32_t)w, name " reads back (32)"); uint64_t o64 = 0; uint32_t o32 = 0; p.get_##base(o64); p.get_##base(o32); sym_assert(o64 == w && o32 == (uint32_t)w, name " overloads agree"); \
    h2 = hdrs(p); unsigned o = pe64 ? off64 : off32, n = pe64 ? 8 : 4; sym_assert(same_except(h, h2, o, n), name " changes only its field"); sym_assert(sym_eqmem(&h2[o], &w, n), name " is stored in its field"); } while (0)
static void wide(bool pe64)
{
    std::string h, h2; pe_base p = symimage(pe64, h);
    switch (sym_choose(6, "field")) {
        case 0: WIDE(108, 120, "heap commit", heap_size_commit); break;
        case 1: WIDE(104, 112, "heap reserve", heap_size_reserve); break;
        case 2: WIDE(100, 104, "stack commit", stack_size_commit); break;
        case 3: WIDE(96, 96, "stack reserve", stack_size_reserve); break;
        case 4: { uint64_t v = sym_u64("value"); p.set_image_base_64(v); uint64_t w = pe64 ? v : (uint32_t)v, o = 0; sym_assert(p.get_image_base_64() == w && p.get_image_base_32() == (uint32_t)w, "image base reads back"); p.get_image_base(o); sym_assert(o == w, "image base overloads agree"); h2 = hdrs(p); sym_assert(same_except(h, h2, pe64 ? 48 : 52, pe64 ? 8 : 4), "image base changes only its field"); break; }
        case 5: { uint32_t v = sym_u32("value"), o = 0; p.set_image_base(v); sym_assert(p.get_image_base_64() == v && p.get_image_base_32() == v, "image base (32) reads back"); p.get_image_base(o); sym_assert(o == v, "image base overloads agree"); h2 = hdrs(p); sym_assert(same_except(h, h2, pe64 ? 48 : 52, pe64 ? 8 : 4), "image base changes only its field"); break; }
    }
    SECTION_KEPT(); sym_reach("wide");
}
extern "C" void c10_wide32() { wide(false); }
extern "C" void c10_wide64() { wide(true); }
static void misc(bool pe64)
{
    std::string h, h2; pe_base p = symimage(pe64, h);
    switch (sym_choose(6, "op")) {
        case 0: { uint16_t a = sym_u16("a"), b = sym_u16("b"); p.set_os_version(a, b); sym_assert(p.get_major_os_version() == a && p.get_minor_os_version() == b, "OS version reads back"); h2 = hdrs(p); sym_assert(same_except(h, h2, H_OSMAJ, 4), "OS version changes only its fields"); sym_assert(get16(h2, H_OSMAJ) == a && get16(h2, H_OSMIN) == b, "OS version is stored in its fields"); break; }
        case 1: { uint16_t a = sym_u16("a"), b = sym_u16("b"); p.set_subsystem_version(a, b); sym_assert(p.get_major_subsystem_version() == a && p.get_minor_subsystem_version() == b, "subsystem version reads back"); h2 = hdrs(p); sym_assert(same_except(h, h2, H_SSMAJ, 4), "subsystem version changes only its fields"); sym_assert(get16(h2, H_SSMAJ) == a && get16(h2, H_SSMIN) == b, "subsystem version is stored in its fields"); break; }
        case 2: { uint16_t f = sym_u16("flags"), c = get16(h, H_CHAR); p.set_characteristics_flags(f); sym_assert(p.get_characteristics() == (uint16_t)(c | f), "setting flags sets exactly those"); h2 = hdrs(p); sym_assert(same_except(h, h2, H_CHAR, 2), "setting flags changes only the characteristics"); break; }
        case 3: { uint16_t f = sym_u16("flags"), c = get16(h, H_CHAR); p.clear_characteristics_flags(f); sym_assert(p.get_characteristics() == (uint16_t)(c & ~f), "clearing flags clears exactly those"); h2 = hdrs(p); sym_assert(same_except(h, h2, H_CHAR, 2), "clearing flags changes only the characteristics"); break; }
        case 4: { uint16_t f = sym_u16("flags"), c = get16(h, H_CHAR); sym_assert(p.check_characteristics_flag(f) == ((c & f) != 0), "testing flags"); h2 = hdrs(p); sym_assert(h == h2 || sym_eqmem(h.data(), h2.data(), h.size()), "testing changes nothing"); break; }
        case 5: { uint32_t v = sym_u32("align"), sa = get32(h, H_SALIGN); bool pow2 = (v != 0) & ((v & (v - 1)) == 0); bool t = THROWS(p.set_file_alignment(v)); sym_assert(t == !(pow2 & (v >= 512) & (v <= sa)), "file alignment is accepted exactly when it is a power of two, at least 512 and not above the section alignment");
            h2 = hdrs(p); if (t) sym_assert(sym_eqmem(h.data(), h2.data(), h.size()), "a refused alignment changes nothing"); else { sym_assert(p.get_file_alignment() == v, "file alignment reads back"); sym_assert(same_except(h, h2, H_FALIGN, 4), "file alignment changes only its field"); } break; }
    }
    SECTION_KEPT(); sym_reach("misc");
}
extern "C" void c10_misc32() { misc(false); }
extern "C" void c10_misc64() { misc(true); }
// what the accessors without a setter report
static void reads(bool pe64)
{
    std::string h; pe_base p = symimage(pe64, h); unsigned d = pe64 ? 136 : 120;
    sym_assert(p.get_pe_signature() == get32(h, 0) && p.get_magic() == get16(h, H_MAGIC) && p.get_size_of_image() == get32(h, H_IMGSIZE) && p.get_section_alignment() == get32(h, H_SALIGN) && p.get_file_alignment() == get32(h, H_FALIGN) && p.get_number_of_sections() == 1, "plain fields are reported");
    sym_assert(p.get_pe_type() == (pe64 ? pe_type_64 : pe_type_32), "image type"); sym_assert(p.get_sizeof_nt_header() == d + 128 && p.get_sizeof_opt_headers() == d + 128 - 24, "structure sizes");
    sym_assert(p.get_number_of_rvas_and_sizes() == get32(h, d - 4), "directory count is reported");
    uint32_t n = get32(h, d - 4); struct { bool v; unsigned id; } q[] = { { p.has_exports(), 0 }, { p.has_imports(), 1 }, { p.has_resources(), 2 }, { p.has_exception_directory(), 3 }, { p.has_security(), 4 }, { p.has_debug(), 6 }, { p.has_tls(), 9 }, { p.has_config(), 10 }, { p.has_bound_import(), 11 }, { p.has_delay_import(), 13 }, { p.is_dotnet(), 14 } };
    for (auto& e : q) sym_assert(e.v == ((e.id < n) & (get32(h, d + 8 * e.id) != 0)), "directory presence predicate");
    sym_assert(p.has_reloc() == ((5 < n) & (get32(h, d + 40) != 0) & ((get16(h, H_CHAR) & 1) == 0)), "relocation presence predicate"); sym_reach("reads");
}
extern "C" void c10_reads32() { reads(false); }
extern "C" void c10_reads64() { reads(true); }
static void dirs(bool pe64, unsigned op)
{
    std::string h, h2; pe_base p = symimage(pe64, h); uint32_t id = sym_u32("id"), n = get32(h, pe64 ? 132 : 116); unsigned d = pe64 ? 136 : 120; uint32_t v = sym_u32("value"); bool ok = id < n, t;
    if (op == 0) { t = THROWS(p.set_directory_rva(id, v)); sym_assert(t == !ok, "setting the RVA is refused exactly outside the directory count"); h2 = hdrs(p); if (t) { sym_assert(sym_eqmem(h.data(), h2.data(), h.size()), "a refused set changes nothing"); sym_reach("refused"); return; } uint32_t k = (uint32_t)sym_concretize(id); sym_assert(p.get_directory_rva(k) == v && p.get_directory_size(k) == get32(h, d + 8 * k + 4), "directory RVA reads back"); sym_assert(same_except(h, h2, d + 8 * k, 4), "only that directory's RVA changes"); }
    else if (op == 1) { t = THROWS(p.set_directory_size(id, v)); sym_assert(t == !ok, "setting the size is refused exactly outside the directory count"); h2 = hdrs(p); if (t) { sym_assert(sym_eqmem(h.data(), h2.data(), h.size()), "a refused set changes nothing"); return; } uint32_t k = (uint32_t)sym_concretize(id); sym_assert(p.get_directory_size(k) == v && p.get_directory_rva(k) == get32(h, d + 8 * k), "directory size reads back"); sym_assert(same_except(h, h2, d + 8 * k + 4, 4), "only that directory's size changes"); }
    else if (op == 2) { uint32_t r = 0, s = 0; t = THROWS(r = p.get_directory_rva(id)); bool t2 = THROWS(s = p.get_directory_size(id)); sym_assert(t == !ok && t2 == !ok, "reading is refused exactly outside the directory count"); bool ex = p.directory_exists(id); if (t) { sym_assert(!ex, "a directory outside the count does not exist"); return; } uint32_t k = (uint32_t)sym_concretize(id); sym_assert(r == get32(h, d + 8 * k) && s == get32(h, d + 8 * k + 4), "directory values are reported"); sym_assert(ex == (r != 0), "a directory exists exactly when it has an RVA"); }
    else { p.remove_directory(id); h2 = hdrs(p); if (!ok) { sym_assert(sym_eqmem(h.data(), h2.data(), h.size()), "removing a directory outside the count changes nothing"); sym_reach("remove-none"); return; } uint32_t k = (uint32_t)sym_concretize(id); bool ex = get32(h, d + 8 * k) != 0;
        if (!ex) { sym_assert(sym_eqmem(h.data(), h2.data(), h.size()), "removing an absent directory changes nothing"); return; }
        sym_assert(get32(h2, d + 8 * k) == 0 && get32(h2, d + 8 * k + 4) == 0, "the removed directory is zero"); std::string g = h; put32(g, d + 8 * k, 0); put32(g, d + 8 * k + 4, 0);
        if (k == 5) { put16(g, H_CHAR, get16(g, H_CHAR) | 1); put16(g, H_DLLCHAR, get16(g, H_DLLCHAR) & ~0x40); } if (k == 0) put16(g, H_CHAR, get16(g, H_CHAR) & ~0x2000);
        sym_assert(sym_eqmem(g.data(), h2.data(), g.size()), "only that directory (and the flags tied to relocations or exports) changes"); }
    SECTION_KEPT(); sym_reach("dir");
}
extern "C" void c10_dirset32() { dirs(false, sym_choose(2, "op")); }
extern "C" void c10_dirset64() { dirs(true, sym_choose(2, "op")); }
extern "C" void c10_dirget32() { dirs(false, 2); }
extern "C" void c10_dirget64() { dirs(true, 2); }
extern "C" void c10_dirremove32() { dirs(false, 3); }
extern "C" void c10_dirremove64() { dirs(true, 3); }
extern "C" void c10_strip()
{
    bool pe64 = sym_choose(2, "pe64"); pe_base p = mkimage(pe64); unsigned d = pe64 ? 136 : 120, n = sym_choose(17, "count"), mn = sym_choose(17, "min"); bool iat = sym_choose(2, "iat"); p.set_number_of_rvas_and_sizes(16);
    unsigned a = sym_choose(17, "present"); bool ip = sym_choose(2, "iatpresent"); if (a < 16) p.set_directory_rva(a, 0x1000); if (ip) p.set_directory_rva(12, 0x2000); p.set_number_of_rvas_and_sizes(n);
    std::string h = hdrs(p), h2; uint32_t r = p.strip_data_directories(mn, iat); h2 = hdrs(p);
    unsigned need = 0; for (unsigned i = 0; i < n; i++) if (get32(h, d + 8 * i) && (i != 12 || !iat)) need = i + 1;
    unsigned want = need < mn ? mn : need; if (want > n) want = n;
    sym_assert(r == p.get_number_of_rvas_and_sizes(), "the returned count is the image's new count"); sym_assert(r == want, "exactly the trailing empty directories above the minimum are stripped");
    sym_assert(same_except(h, h2, d - 4, 4), "stripping changes only the count"); sym_reach("strip");
}
// a newly created image: empty, with the alignment, subsystem and DLL flag asked for
static void created(bool pe64)
{
    uint32_t align = sym_u32("alignment"); uint16_t sub = sym_u16("subsystem"); unsigned form = sym_choose(4, "form");
    pe_base p = form == 0 ? (pe64 ? pe_base(pe_properties_64()) : pe_base(pe_properties_32())) : form == 1 ? (pe64 ? pe_base(pe_properties_64(), align) : pe_base(pe_properties_32(), align)) : (pe64 ? pe_base(pe_properties_64(), align, form == 3, sub) : pe_base(pe_properties_32(), align, form == 3, sub));
    sym_assert(p.get_pe_type() == (pe64 ? pe_type_64 : pe_type_32), "type of a created image");
    sym_assert(p.get_section_alignment() == (form ? align : 0x1000u), "section alignment of a created image");
    sym_assert(p.get_subsystem() == (form >= 2 ? sub : 2), "subsystem of a created image");
    unsigned ch = 3 | (pe64 ? 0 : 0x100) | (form == 3 ? 0x2000 : 0);
    sym_assert(p.get_characteristics() == ch && p.check_characteristics_flag(image_file_dll) == (form == 3), "characteristics of a created image");
    sym_assert(p.get_image_sections().empty() && p.get_number_of_sections() == 0 && p.get_stub_overlay().empty() && !p.has_overlay() && p.get_raw_debug_data_list().empty(), "a created image is empty");
    sym_assert(p.get_number_of_rvas_and_sizes() == 16, "directory count of a created image"); for (unsigned i = 0; i < 16; i++) sym_assert(!p.directory_exists(i) && p.get_directory_rva(i) == 0 && p.get_directory_size(i) == 0, "a created image has no directories");
    sym_assert(p.get_pe_signature() == 0x4550 && p.get_magic() == (pe64 ? 0x20b : 0x10b) && p.get_size_of_optional_header() == (pe64 ? 240 : 224) && p.get_file_alignment() == 0x200 && p.get_image_base_64() == 0x400000 && p.get_ep() == 0 && p.get_checksum() == 0, "headers of a created image");
    sym_reach("created");
}
extern "C" void c10_created32() { created(false); }
extern "C" void c10_created64() { created(true); }
