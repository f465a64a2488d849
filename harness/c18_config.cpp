// C18: load configuration directories round-trip.
#include "dir.h"
#include "pe_load_config.h"
static std::string whole(const pe_base& p, unsigned i) { const section& s = p.get_image_sections()[i]; uint32_t sa = p.get_section_alignment(), b = s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(); std::string r; bytes_at(p, s.get_virtual_address(), (b + sa - 1) & ~(sa - 1), r); return r; }
static bool LARGE = false; // concrete values but for a few
static void trip(bool last, unsigned off, unsigned nse, unsigned nlp, unsigned opts, bool zeros)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x30 }; const unsigned SA = 0x200; bool pe64 = opts & 1, save = opts & 2, strip = opts & 4, ws = opts & 8, wl = opts & 16; unsigned ns = last ? 2 : 3, P = pe64 ? 8 : 4, SZ = pe64 ? 112 : 72;
    pe_base p = dirimage(pe64, ns, LEN, SA); uint64_t base;
    if (LARGE) { base = pe64 ? 0x140000000ull : 0x400000; p.set_image_base_64(base); } else if (pe64) { base = sym_u64("base"); sym_assume((base != 0) & (base <= 0xfffffffe00000000ull)); p.set_image_base_64(base); } else { uint32_t b = sym_u32("base"); sym_assume((b != 0) & (b < 0xf0000000)); p.set_image_base(b); base = b; }
    uint32_t room = pe64 ? 0xffffffff : 0xffffffff - (uint32_t)base; section& s = p.get_image_sections()[1]; if (zeros) s.set_raw_data(std::string(0x200, 0));
    image_config_info in; auto W = [&](const char* n) -> uint64_t { if (pe64) return sym_u64(n); return sym_u32(n); };
    uint32_t ts = sym_u32("time"), gc = sym_u32("clear"), gs = sym_u32("set"), cs = sym_u32("timeout"), hf = sym_u32("heap"); uint16_t mj = sym_u16("major"), mn = sym_u16("minor"), sp = sym_u16("sp"); uint64_t df = W("free"), dt = W("total"), ma = W("max"), vm = W("threshold"), af = W("affinity"), el = W("edit"), ck = W("cookie");
    in.set_time_stamp(ts); in.set_global_flags_clear(gc); in.set_global_flags_set(gs); in.set_critical_section_default_timeout(cs); in.set_process_heap_flags(hf); in.set_major_version(mj); in.set_minor_version(mn); in.set_service_pack_version(sp); in.set_decommit_free_block_threshold(df); in.set_decommit_total_free_threshold(dt); in.set_max_allocation_size(ma); in.set_virtual_memory_threshold(vm); in.set_process_affinity_mask(af); in.set_edit_list_va(el); in.set_security_cookie_va(ck);
    // tables that are not rewritten lie in section 0
    std::vector<uint32_t> se, lp; section& q = p.get_image_sections()[0]; std::string old = q.get_raw_data(); uint64_t seva = 0, lpva = 0;
    for (unsigned i = 0; i < nse; i++) { uint32_t r = LARGE ? 0x1000 + 16 * ((i * 7) % nse) + (i == 0 || i == nse - 1 ? sym_u8("handler") & 15 : 3) : sym_u32("handler"); se.push_back(r); if (ws || i % 2) in.add_se_handler_rva(r); else in.get_se_handler_rvas().push_back(r); } for (unsigned i = 0; i < nlp; i++) { uint32_t r = LARGE && i != 1 && i + 2 != nlp ? 5 * i + 1 : sym_u32("prefix"); sym_assume(r <= room); lp.push_back(r); in.add_lock_prefix_rva(r); }
    if (!ws && nse) { for (unsigned i = 0; i < nse; i++) put32(old, 4 * i, se[i]); seva = base + q.get_virtual_address(); } if (!wl && nlp) { unsigned o = 0x20 - P * nlp; for (unsigned i = 0; i < nlp * P; i++) old[o + i] = (char)((base + lp[i / P]) >> (8 * (i % P))); lpva = base + q.get_virtual_address() + o; } q.set_raw_data(old); if (ws) seva = W("ignored"); if (wl) lpva = W("ignored"); in.set_se_handler_table_va(seva); in.set_lock_prefix_table_va(lpva);
    if (ws) for (unsigned i = 1; i < nse; i++) for (unsigned j = i; j && se[j] < se[j - 1]; j--) std::swap(se[j], se[j - 1]);
    std::string before = whole(p, 1); Others o = others(p, 1); p.set_directory_rva(10, 0x77); p.set_directory_size(10, 0x78); unsigned pos = (off + P - 1) & ~(P - 1), sepos = pos + SZ, lppos = sepos + (ws ? 4 * nse : 0), end = lppos + (wl ? P * (nlp + 1) : 0); bool refuse = !last && end > 0x200;
    image_directory d; bool th = THROWS(d = rebuild_image_config(p, in, s, off, ws, wl, save, strip)); sym_assert(th == refuse, "a load configuration is refused exactly when it does not fit"); if (th) { sym_assert(others_kept(p, o) && eqs(before, whole(p, 1)), "a refused rebuild changes nothing"); sym_reach("config-refused"); return; }
    uint32_t va = s.get_virtual_address(), dr = d.get_rva(); sym_assert(dr == va + pos && d.get_size() == SZ, "the directory lies at the aligned offset"); if (save) sym_assert(p.get_directory_rva(10) == dr && p.get_directory_size(10) == SZ, "directory entry set"); else { sym_assert(p.get_directory_rva(10) == 0x77 && p.get_directory_size(10) == 0x78, "directory entry kept"); p.set_directory_rva(10, dr); p.set_directory_size(10, SZ); }
    sym_assert(others_kept(p, o), "other sections are untouched"); sym_assert(layout_ok(p), "layout stays valid"); std::string after = whole(p, 1); sym_assert(after.size() >= before.size(), "the section does not shrink"); if (after.size() < before.size()) return; size_t k = pos < before.size() ? pos : before.size(); sym_assert(sym_eqmem(after.data(), before.data(), k), "bytes before the directory are untouched"); if (end < before.size()) sym_assert(sym_eqmem(after.data() + end, before.data() + end, before.size() - end), "bytes behind the tables are untouched");
    // independent decoding
    std::string t; bool in1 = bytes_at(p, dr, SZ, t); sym_assert(in1, "the structure lies in the section"); if (!in1) return; unsigned b = 24; auto P_ = [&](unsigned i) -> uint64_t { unsigned x = 24 + P * i; if (pe64) return get64(t, x); return get32(t, x); };
    sym_assert(get32(t, 0) == SZ && get32(t, 4) == ts && get16(t, 8) == mj && get16(t, 10) == mn && get32(t, 12) == gc && get32(t, 16) == gs && get32(t, 20) == cs, "fixed fields are written"); (void)b;
    sym_assert(P_(0) == df && P_(1) == dt && P_(3) == ma && P_(4) == vm, "thresholds are written"); if (pe64) sym_assert(P_(5) == af && get32(t, 72) == hf && get16(t, 76) == sp && get64(t, 80) == el && get64(t, 88) == ck, "PE32+ fields are written"); else sym_assert(get32(t, 44) == hf && get32(t, 48) == af && get16(t, 52) == sp && get32(t, 56) == el && get32(t, 60) == ck, "PE32 fields are written");
    uint64_t wse = pe64 ? get64(t, 96) : get32(t, 64), wct = pe64 ? get64(t, 104) : get32(t, 68), wlp = P_(2); uint64_t xse = ws ? (nse ? base + va + sepos : 0) : seva, xlp = wl ? (nlp ? base + va + lppos : 0) : lpva; sym_assert(wse == xse && wct == nse && wlp == xlp, "table addresses and count are written");
    image_config_info r = get_image_config(p); sym_assert(r.get_time_stamp() == ts && r.get_major_version() == mj && r.get_minor_version() == mn && r.get_global_flags_clear() == gc && r.get_global_flags_set() == gs && r.get_critical_section_default_timeout() == cs && r.get_process_heap_flags() == hf && r.get_service_pack_version() == sp, "fixed fields are read back");
    sym_assert(r.get_decommit_free_block_threshold() == df && r.get_decommit_total_free_threshold() == dt && r.get_max_allocation_size() == ma && r.get_virtual_memory_threshold() == vm && r.get_process_affinity_mask() == af && r.get_edit_list_va() == el && r.get_security_cookie_va() == ck, "wide fields are read back"); sym_assert(r.get_se_handler_table_va() == xse && r.get_lock_prefix_table_va() == xlp, "table addresses are read back");
    const image_config_info& rc = r; sym_assert(rc.get_se_handler_rvas().size() == nse && rc.get_lock_prefix_rvas().size() == nlp, "tables have the same length"); if (rc.get_se_handler_rvas().size() != nse || rc.get_lock_prefix_rvas().size() != nlp) return; for (unsigned i = 0; i < nse; i++) sym_assert(rc.get_se_handler_rvas()[i] == se[i], "handlers are read back"); for (unsigned i = 0; i < nlp; i++) sym_assert(rc.get_lock_prefix_rvas()[i] == lp[i], "lock prefixes are read back"); sym_reach("config");
}
extern "C" void c18_last() { static const unsigned OFF[4] = { 0, 5, 0x1b1, 0x203 }; trip(true, OFF[sym_choose(4, "off")], sym_choose(3, "handlers"), sym_choose(3, "prefixes"), sym_choose(32, "options"), false); }
extern "C" void c18_fitq() { unsigned opts = 2 + sym_choose(2, "PE32+") + 4 * sym_choose(8, "options"), nse = sym_choose(3, "handlers"), nlp = sym_choose(3, "prefixes"); unsigned P = opts & 1 ? 8 : 4, need = (opts & 1 ? 112 : 72) + (opts & 8 ? 4 * nse : 0) + (opts & 16 ? P * (nlp + 1) : 0); trip(false, 0x200 - need - 9 + 3 * sym_choose(6, "fit"), nse, nlp, opts, false); }
extern "C" void c18_zerosq() { trip(sym_choose(2, "last"), 0, sym_choose(3, "handlers"), sym_choose(3, "prefixes"), 6 + sym_choose(2, "PE32+") + 8 * sym_choose(4, "write"), true); }
extern "C" void c18_fit() { unsigned opts = sym_choose(32, "options"), nse = sym_choose(3, "handlers"), nlp = sym_choose(3, "prefixes"); unsigned P = opts & 1 ? 8 : 4, need = (opts & 1 ? 112 : 72) + (opts & 8 ? 4 * nse : 0) + (opts & 16 ? P * (nlp + 1) : 0); trip(false, 0x200 - need - 9 + sym_choose(18, "fit"), nse, nlp, opts, false); }
extern "C" void c18_zeros() { trip(sym_choose(2, "last"), 0, sym_choose(3, "handlers"), sym_choose(4, "prefixes"), sym_choose(32, "options"), true); }
extern "C" void c18_tables() { trip(sym_choose(2, "last"), 6, 3 + sym_choose(2, "handlers"), sym_choose(2, "prefixes") * 3, 8 + sym_choose(2, "PE32+") + 16 * sym_choose(2, "prefixes"), false); }
// a structure of an older, shorter version is refused
extern "C" void c18_old() { static const unsigned LEN[2] = { 0x200, 0x10 }; bool pe64 = sym_choose(2, "PE32+"); pe_base p = dirimage(pe64, 2, LEN, 0x200); std::string d = p.get_image_sections()[0].get_raw_data(); for (unsigned i = 0; i < 0x80; i++) d[0x40 + i] = 0; uint32_t sz = sym_u32("size"); put32(d, 0x40, sz); p.get_image_sections()[0].set_raw_data(d); p.set_directory_rva(10, 0x1040); p.set_directory_size(10, sym_u32("dirsize")); bool th = THROWS(get_image_config(p)); sym_assert(th == (sz < (pe64 ? 112u : 72u)), "shorter structures are refused"); p.set_directory_rva(10, 0); sym_assert(THROWS(get_image_config(p)), "an image without load configuration is refused"); sym_reach("old"); }
// tables of more than 255 entries
extern "C" void c18_large() { static const unsigned N[3] = { 255, 256, 300 }; unsigned o = sym_choose(4, "options"), k = sym_choose(3, "count"), w = sym_choose(2, "which"); LARGE = true; trip(true, 6, w ? N[k] : 2, w ? 1 : N[k], 8 + 16 + (o & 1 ? 1 : 0) + (o & 2 ? 4 : 2), false); }
