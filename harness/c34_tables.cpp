// C34: relocation, TLS and load configuration directories are decoded exactly, whoever laid them out.
#include "foreign.h"
#include "pe_relocations.h"
#include "pe_tls.h"
#include "pe_load_config.h"
// ---- relocations: nb blocks of up to maxe entries one behind the other
static void relocs(unsigned nb, unsigned maxe, bool big)
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); if (big) g.large(); unsigned how = big ? 0 : sym_choose(ARRANGE, "arrangement"), end = sym_choose(3, "end"); std::vector<std::vector<uint16_t> > e(nb); std::vector<uint32_t> page(nb); uint32_t total = 0; for (unsigned i = 0; i < nb; i++) { e[i].resize(big ? (i ? 1 : maxe) : sym_choose(maxe + 1, "entries")); total += 8 + 2 * e[i].size(); }
    // 0: the directory ends with the last block; 1: a block of no size follows within it; 2: a further block follows outside of it
    uint32_t extra = end ? 8 : 0; Sizes n(1, total + extra); if (!n[0]) n[0] = 8; Sizes r = arrange(n, how); if (!big && !fits(n, r)) sym_done(); if (how == 4 && end != 1) sym_done(); uint32_t at = r[0]; g.dir(5, at, end == 1 ? total + 8 : total);
    for (unsigned i = 0; i < nb; i++) { page[i] = sym_u32("page"); g.u32(at, page[i]); g.u32(at + 4, 8 + 2 * e[i].size()); at += 8; for (unsigned j = 0; j < e[i].size(); j++) { e[i][j] = !big || ((i < 1 || i == 255 || i + 1 == nb) && (j < 1 || j == 255 || j + 1 == e[i].size())) ? sym_u16("entry") : (uint16_t)(0x3000 + 4 * j % 0x1000); g.u16(at, e[i][j]); at += 2; } } if (end == 1) { g.u32(at, sym_u32("page")); g.u32(at + 4, 0); } if (end == 2 || !nb) { g.u32(at, 0x1000); g.u32(at + 4, nb ? 8 : 0); }
    bool abs = sym_choose(2, "absolute"); pe_base p = g.open(); relocation_table_list l = get_relocations(p, abs); sym_assert(l.size() == nb, "every block of the directory"); if (l.size() != nb) return;
    for (unsigned i = 0; i < nb; i++) { sym_assert(l[i].get_rva() == page[i], "page address"); const relocation_table::relocation_list& x = l[i].get_relocations(); size_t q = 0; for (unsigned j = 0; j < e[i].size(); j++) { if (!abs && sym_concretize((e[i][j] >> 12) == 0)) continue; sym_assert(q < x.size(), "every entry"); if (q >= x.size()) return; sym_assert(x[q].get_rva() == (e[i][j] & 0xfff) && x[q].get_type() == e[i][j] >> 12 && x[q].get_item() == e[i][j], "offset and type"); q++; } sym_assert(q == x.size(), "no other entries"); }
    sym_reach(how == 5 ? "headers" : how == 4 ? "zeros" : "relocs");
}
extern "C" void c34_relocs() { relocs(sym_choose(3, "blocks"), 3, false); }
extern "C" void c34_relocs3() { relocs(3, 2, false); }
extern "C" void c34_manyrelocs() { static const unsigned N[4] = { 255, 256, 300, 5000 }; unsigned k = sym_choose(4, "number"); relocs(2, N[k], true); }
extern "C" void c34_manyblocks() { static const unsigned N[3] = { 255, 256, 300 }; relocs(N[sym_choose(3, "number")], 1, true); }
extern "C" void c34_badrelocs()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); uint32_t dir = A0; unsigned how = sym_choose(5, "how"); bool bad = true; uint32_t size = 12, whole = 24;
    switch (how)
    {
    case 0: size = sym_u32("size"); sym_assume(size & 1); break;                         // blocks consist of words
    case 1: { static const uint32_t N[4] = { 0x802, 0x804, 0x10000, 0xfffffffe }; size = N[sym_choose(4, "block")]; whole = size; break; } // block runs out of the image
    case 2: dir = sym_u32("directory"); sym_assume((dir > B1 - 8) | ((dir > H1 - 8) & (dir < A0)) | ((dir > A1 - 8) & (dir < A1))); break;
    case 3: dir = A1 - 12; break;                                                        // the next block lies outside
    default: bad = false; break;
    }
    uint32_t w = how == 3 ? dir : A0; g.u32(w, 0x1000); g.u32(w + 4, size); g.u16(w + 8, 0x3010); g.u16(w + 10, 0x3020); if (w == A0) { g.u32(w + 12, 0x2000); g.u32(w + 16, 12); g.u16(w + 20, 0x3030); g.u16(w + 22, 0); } g.dir(5, dir, whole); pe_base p = g.open(); bool th = THROWS(get_relocations(p)); if (how == 3) { sym_reach("adjacent"); return; } sym_assert(th == bad, "blocks that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
// ---- TLS
static void tls(bool headers, unsigned maxcb, bool big)
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); if (big) g.large(); unsigned P = g.w, SZ = pe64 ? 40 : 24; static const uint32_t LEN[5] = { 0, 1, 5, 0x30, 0x10 }; unsigned dk = big ? 2 : sym_choose(6, "data"); uint32_t len = big ? 300 : dk < 5 ? LEN[dk] : 0; unsigned ncb = big ? maxcb : sym_choose(maxcb + 1, "callbacks"); bool cbs = big || ncb || sym_choose(2, "list");
    unsigned how = big ? 0 : headers ? 5 : sym_choose(ARRANGE, "arrangement"); Sizes n; n.push_back(SZ); n.push_back(len ? len : 1); n.push_back(P * (ncb + 1)); if (!big && sym_choose(2, "order")) std::swap(n[1], n[2]); else if (!big) n.push_back(0), n.pop_back(); bool swapped = n[1] == P * (ncb + 1) && n[2] == (len ? len : 1) && n[1] != n[2]; Sizes r = arrange(n, how); if (!big && !fits(n, r)) sym_done(); uint32_t da = r[swapped ? 2 : 1], ca = r[swapped ? 1 : 2], st = r[0]; if (how == 4 && swapped) sym_done();
    if (dk == 4 && !big) { da = BD - 8; if (how != 0 && how != 1 && how != 3 && how != 5) sym_done(); }  // data that runs on into the zeros behind a section's data
    uint64_t base = g.base; uint32_t room = pe64 ? 0xffffffff : 0xffffffff - (uint32_t)base, idx = sym_u32("index"), zf = sym_u32("zerofill"), ch = sym_u32("flags"); sym_assume(idx <= room); bool noidx = sym_choose(2, "noindex"); std::string d = sym_str(big ? 0 : len, "bytes"); if (big) d = sym_name(1, "first") + std::string(len - 2, 0x44) + sym_name(1, "last"); g.at(da, d); for (size_t i = 0; i < d.size(); i++) if (da + i >= g.end) d[i] = 0;
    // no data: start and end agree; both zero, some address, or one outside the image
    uint64_t s = base + da, e = s + len; if (!len && dk == 5) s = e = 0; bool weird = false; if (dk == 0) { weird = sym_choose(2, "outside"); if (weird) { uint64_t x = pe64 ? sym_u64("place") : sym_u32("place"); sym_assume((x != 0) & (x < base)); s = e = x; } }
    g.ptr(st, s); g.ptr(st + P, e); g.ptr(st + 2 * P, noidx ? 0 : base + idx); g.ptr(st + 3 * P, cbs ? base + ca : 0); g.u32(st + 4 * P, zf); g.u32(st + 4 * P + 4, ch);
    std::vector<uint32_t> cb(ncb); for (unsigned i = 0; i < ncb; i++) { bool sy = !big || i < 2 || i == 255 || i + 1 == ncb; cb[i] = sy ? sym_u32("callback") : 0x1000 + 3 * i; sym_assume(cb[i] <= room); g.ptr(ca + P * i, base + cb[i]); } g.ptr(ca + P * ncb, 0); g.dir(9, st, sym_choose(2, "size") ? SZ : 1);
    pe_base p = g.open(); tls_info t = get_tls_info(p); sym_assert(t.get_size_of_zero_fill() == zf && t.get_characteristics() == ch && t.get_index_rva() == (noidx ? 0 : idx), "fields"); uint32_t ws = s && !weird ? (uint32_t)(s - base) : 0, we = e && !weird ? (uint32_t)(e - base) : 0; sym_assert(t.get_raw_data_start_rva() == ws && t.get_raw_data_end_rva() == we, "extent of the data"); sym_assert(eqs(t.get_raw_data(), d), "the data"); sym_assert(t.get_callbacks_rva() == (cbs ? ca : 0), "address of the callbacks"); const std::vector<uint32_t>& c = t.get_tls_callbacks(); sym_assert(c.size() == (cbs ? ncb : 0), "every callback up to the null"); if (c.size() != (cbs ? ncb : 0)) return; for (size_t i = 0; i < c.size(); i++) sym_assert(c[i] == cb[i], "callback"); sym_reach(how == 5 ? "headers" : how == 4 ? "zeros" : "tls");
}
extern "C" void c34_tls() { tls(false, 2, false); }
extern "C" void c34_manycallbacks() { static const unsigned N[3] = { 255, 256, 300 }; tls(false, N[sym_choose(3, "number")], true); }
extern "C" void c34_badtls()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); unsigned P = g.w; uint64_t base = g.base, s = base + A0 + 0x100, e = s + 4, cb = base + A0 + 0x200, c0 = base + 0x1234; uint32_t dir = A0; unsigned how = sym_choose(8, "how"); bool bad = true; auto A = [&](const char* n) -> uint64_t { return pe64 ? sym_u64(n) : sym_u32(n); };
    switch (how)
    {
    case 0: s = A("start"); e = base + B1; sym_assume((s > e) | ((s < base + A0) & (s >= base + H1))); break;
    case 1: e = A("end"); sym_assume((e > base + A1) | (e < s)); break;
    case 2: cb = A("callbacks"); sym_assume((cb > base + B1 - P) | ((cb > base + H1 - P) & (cb < base + A0)) | ((cb != 0) & (cb < base))); break;
    case 3: e = s; cb = 0; bad = false; break;
    case 4: dir = sym_u32("directory"); sym_assume((dir > B1 - 24) | ((dir > H1 - 24) & (dir < A0))); break;
    case 5: g.dir(9, 0, sym_u32("size")); dir = 0; break;
    case 6: cb = base + A1 - P; c0 = base + 0x1111; break; // the list runs on into the next section
    default: bad = false; break;
    }
    g.ptr(A0, s); g.ptr(A0 + P, e); g.ptr(A0 + 2 * P, base + 0x2000); g.ptr(A0 + 3 * P, cb); g.ptr(A0 + 0x200, c0); g.ptr(A0 + 0x200 + P, 0); if (how == 6) { g.ptr(A1 - P, c0); g.ptr(B0, 0); } if (dir) g.dir(9, dir, 24); pe_base p = g.open(); bool th = THROWS(get_tls_info(p)); if (how == 6) { sym_reach("adjacent"); return; } sym_assert(th == bad, "tables that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
// ---- load configuration
static void config(unsigned nse, unsigned nlp, bool big)
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); if (big) g.large(); unsigned P = g.w, SZ = pe64 ? 112 : 72, how = big ? 0 : sym_choose(5, "arrangement"); bool nolp = !nlp && !big && sym_choose(2, "noprefixes"); Sizes n; n.push_back(SZ); n.push_back(4 * nse); n.push_back(P * (nlp + 1)); Sizes r = arrange(n, how); if (!big && !fits(n, r)) sym_done();
    uint32_t at = r[0], size = sym_u32("size"); sym_assume(size >= SZ); std::string s(SZ, 0); symbytes(s, 0, SZ, "config"); put32(s, 0, size); uint64_t base = g.base; uint32_t room = pe64 ? 0xffffffff : 0xffffffff - (uint32_t)base; unsigned lo = 24 + 2 * P, so = pe64 ? 96 : 64; auto ptr = [&](unsigned o, uint64_t v) { if (pe64) put64(s, o, v); else put32(s, o, (uint32_t)v); }; ptr(lo, nolp ? 0 : base + r[2]); if (nse) ptr(so, base + r[1]); else { uint64_t x = pe64 ? get64(s, so) : get32(s, so); sym_assume(x < base + 0x10000); } ptr(so + P, nse); g.at(at, s);
    std::vector<uint32_t> se(nse), lp(nlp); for (unsigned i = 0; i < nse; i++) { se[i] = !big || i == 0 || i == 255 || i + 1 == nse ? sym_u32("handler") : 0x1000 + 5 * i; g.u32(r[1] + 4 * i, se[i]); } for (unsigned i = 0; i < nlp; i++) { lp[i] = !big || i == 0 || i == 255 || i + 1 == nlp ? sym_u32("prefix") : 0x1000 + 7 * i; sym_assume(lp[i] <= room); g.ptr(r[2] + P * i, base + lp[i]); } g.ptr(r[2] + P * nlp, 0); g.dir(10, at, sym_choose(2, "dirsize") ? SZ : 64);
    pe_base p = g.open(); image_config_info c = get_image_config(p); auto W = [&](unsigned o) -> uint64_t { if (pe64) return get64(s, o); return get32(s, o); };
    sym_assert(c.get_time_stamp() == get32(s, 4) && c.get_major_version() == get16(s, 8) && c.get_minor_version() == get16(s, 10) && c.get_global_flags_clear() == get32(s, 12) && c.get_global_flags_set() == get32(s, 16) && c.get_critical_section_default_timeout() == get32(s, 20), "fixed fields"); sym_assert(c.get_decommit_free_block_threshold() == W(24) && c.get_decommit_total_free_threshold() == W(24 + P) && c.get_lock_prefix_table_va() == W(lo) && c.get_max_allocation_size() == W(24 + 3 * P) && c.get_virtual_memory_threshold() == W(24 + 4 * P), "thresholds");
    if (pe64) sym_assert(c.get_process_affinity_mask() == get64(s, 64) && c.get_process_heap_flags() == get32(s, 72) && c.get_service_pack_version() == get16(s, 76) && c.get_edit_list_va() == get64(s, 80) && c.get_security_cookie_va() == get64(s, 88), "PE32+ fields"); else sym_assert(c.get_process_heap_flags() == get32(s, 44) && c.get_process_affinity_mask() == get32(s, 48) && c.get_service_pack_version() == get16(s, 52) && c.get_edit_list_va() == get32(s, 56) && c.get_security_cookie_va() == get32(s, 60), "PE32 fields");
    sym_assert(c.get_se_handler_table_va() == W(so), "address of the handlers"); const std::vector<uint32_t> &a = c.get_se_handler_rvas(), &b = c.get_lock_prefix_rvas(); sym_assert(a.size() == nse, "as many handlers as the count tells"); sym_assert(b.size() == nlp, "every prefix up to the null"); if (a.size() != nse || b.size() != nlp) return; for (size_t i = 0; i < nse; i++) sym_assert(a[i] == se[i], "handler"); for (size_t i = 0; i < nlp; i++) sym_assert(b[i] == lp[i], "lock prefix"); sym_reach(how == 4 ? "zeros" : "config");
}
extern "C" void c34_config() { unsigned a = sym_choose(3, "handlers"), b = sym_choose(3, "prefixes"); config(a, b, false); }
extern "C" void c34_manyconfig() { static const unsigned N[3] = { 255, 256, 300 }; unsigned a = N[sym_choose(3, "handlers")], b = N[sym_choose(3, "prefixes")]; config(a, b, true); }
extern "C" void c34_badconfig()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); unsigned P = g.w, SZ = pe64 ? 112 : 72, so = pe64 ? 96 : 64; uint64_t base = g.base, se = base + A0 + 0x100, lp = base + A0 + 0x200, l0 = base + 0x1234, n = 2; uint32_t dir = A0, size = SZ; unsigned how = sym_choose(8, "how"); bool bad = true; auto A = [&](const char* m) -> uint64_t { return pe64 ? sym_u64(m) : sym_u32(m); };
    switch (how)
    {
    case 0: size = sym_u32("size"); sym_assume(size < SZ); break;
    case 1: se = A("handlers"); sym_assume((se > base + B1 - 8) | (se < base + A0) | ((se > base + A1 - 8) & (se < base + A1) & ((se & 3) != 0))); break;
    case 2: n = A("count"); sym_assume(n > (B1 - A0) / 4); se = base + B1 - 4; break;
    case 3: lp = A("prefixes"); sym_assume((lp > base + B1 - P) | ((lp < base + A0) & (lp != 0))); break;
    case 4: l0 = A("prefix"); sym_assume((l0 != 0) & (l0 < base)); break;
    case 5: dir = sym_u32("directory"); sym_assume((dir > B1 - SZ) | (dir < A0)); break;
    case 6: n = 3; se = base + A0 + 0x10; lp = 0; bad = false; break;
    default: bad = false; break;
    }
    std::string s(SZ, 0); put32(s, 0, size); g.at(A0, s); g.ptr(A0 + 24 + 2 * P, lp); g.ptr(A0 + so, se); g.ptr(A0 + so + P, n); g.ptr(A0 + 0x200, l0); g.ptr(A0 + 0x200 + P, 0); g.dir(10, dir, SZ); pe_base p = g.open(); bool th = THROWS(get_image_config(p)); sym_assert(th == bad, "tables that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
extern "C" void c34_none() { Foreign g(sym_choose(2, "pe64")); uint32_t s = sym_u32("size"); g.dir(5, 0, s); g.dir(9, 0, s); g.dir(10, 0, s); pe_base p = g.open(); sym_assert(get_relocations(p).empty(), "an image without the directory has no relocations"); sym_assert(THROWS(get_tls_info(p)) && THROWS(get_image_config(p)), "a directory that is not there is refused"); sym_reach("none"); }
