// C17: TLS directories round-trip.
#include "dir.h"
#include "pe_tls.h"
static std::string mapped(const pe_base& p, unsigned i) { const section& s = p.get_image_sections()[i]; uint32_t sa = p.get_section_alignment(), b = s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(); std::string r; bytes_at(p, s.get_virtual_address(), (b + sa - 1) & ~(sa - 1), r); return r; }
struct Place { int sec; unsigned off; };
static bool LARGE = false; // concrete values but for a few
// last: the TLS section is the last one. data/cb: where raw data and callbacks lie. opts: bit0 PE32+, bit1 save, bit2 strip, bit3 write data, bit4 write callbacks, bit5 expand virtual
static void trip(bool last, unsigned off, Place data, unsigned L, unsigned slen, Place cb, unsigned ncb, unsigned opts, int weird)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x30 }; const unsigned SA = 0x200; bool pe64 = opts & 1, save = opts & 2, strip = opts & 4, wd = opts & 8, wc = opts & 16, ev = opts & 32; unsigned ns = last ? 2 : 3, P = pe64 ? 8 : 4;
    pe_base p = dirimage(pe64, ns, LEN, SA); uint64_t base;
    if (LARGE) { base = pe64 ? 0x140000000ull : 0x400000; p.set_image_base_64(base); } else if (pe64) { base = sym_u64("base"); sym_assume((base != 0) & (base <= 0xfffffffe00000000ull)); p.set_image_base_64(base); } else { uint32_t b = sym_u32("base"); sym_assume((b != 0) & (b < 0xf0000000)); p.set_image_base(b); base = b; }
    uint32_t room = pe64 ? 0xffffffff : 0xffffffff - (uint32_t)base; section& s = p.get_image_sections()[1];
    tls_info in; uint32_t idx = sym_u32("index"); sym_assume((idx != 0) & (idx <= room)); in.set_index_rva(idx); in.set_size_of_zero_fill(sym_u32("zerofill")); in.set_characteristics(sym_u32("ch")); std::string raw = LARGE ? std::string(slen, 0x5a) : sym_str(slen, "raw"); if (LARGE) { raw[0] = sym_u8("rawfirst"); raw[slen - 1] = sym_u8("rawlast"); } in.set_raw_data(raw);
    uint32_t start = data.sec < 0 ? 0 : p.get_image_sections()[data.sec].get_virtual_address() + data.off, crva = cb.sec < 0 ? 0 : p.get_image_sections()[cb.sec].get_virtual_address() + cb.off; in.set_raw_data_start_rva(start); if (slen == L) { in.recalc_raw_data_end_rva(); sym_assert(in.get_raw_data_end_rva() == start + L, "end address follows the raw data"); } uint32_t end = start + L; in.set_raw_data_end_rva(end); in.set_callbacks_rva(crva);
    if (weird == 1) in.set_raw_data_end_rva(start - 1); if (weird == 2) in.set_index_rva(0);
    std::vector<uint32_t> list; for (unsigned i = 0; i < ncb; i++) { uint32_t r = LARGE && i != 1 && i + 1 != ncb ? 5 * i + 1 : sym_u32("callback"); sym_assume(r <= room); in.add_tls_callback(r); list.push_back(r); }
    if (cb.sec >= 0 && !wc) { list.clear(); section& q = p.get_image_sections()[cb.sec]; if (cb.off + 2 * P <= q.get_raw_data().size()) { uint32_t r = sym_u32("oldcallback"); sym_assume(r <= room); list.push_back(r); uint64_t v = base + r; std::string d = q.get_raw_data(); for (unsigned i = 0; i < 2 * P; i++) d[cb.off + i] = i < P ? (char)(v >> (8 * i)) : 0; q.set_raw_data(d); } else crva = 0, in.set_callbacks_rva(0); }
    std::vector<std::string> want; std::vector<std::string> hd; for (unsigned i = 0; i < ns; i++) { want.push_back(mapped(p, i)); hd.push_back(raw40(p.get_image_sections()[i])); } p.set_directory_rva(9, 0x77); p.set_directory_size(9, 0x78);
    unsigned pos = (off + P - 1) & ~(P - 1), SZ = pe64 ? 40 : 24;
    // expectation
    bool refuse = weird != 0 || (!last && pos + SZ > 0x200); std::string st(SZ, 0);
    if (!refuse) {
        unsigned o = 0; auto ptr = [&](uint64_t v) { for (unsigned i = 0; i < P; i++) st[o++] = (char)(v >> (8 * i)); }; auto w32 = [&](uint32_t v) { for (unsigned i = 0; i < 4; i++) st[o++] = (char)(v >> (8 * i)); };
        ptr(start ? base + start : 0); ptr(end ? base + end : 0); ptr(base + idx); ptr(crva ? base + crva : 0); w32(in.get_size_of_zero_fill()); w32(in.get_characteristics());
    }
    std::vector<unsigned> stored; for (unsigned i = 0; i < ns; i++) stored.push_back(p.get_image_sections()[i].get_raw_data().size()); if (!refuse && pos + SZ > stored[1]) stored[1] = pos + SZ;
    std::string wraw; unsigned wn = 0; if (!refuse && wd && start && L) { unsigned k = data.sec, e = data.off + L, ext = want[k].size(); if (k == ns - 1) { if (ev) { if (e > ext) ext = (e + SA - 1) & ~(SA - 1); } else if (e > stored[k]) { stored[k] = e; if (e > ext) ext = (e + SA - 1) & ~(SA - 1); } } if (e > ext) refuse = true; else { unsigned have = data.off < stored[k] ? stored[k] - data.off : 0; wn = L < have ? L : have; if (slen < wn) wn = slen; wraw = raw.substr(0, wn); if (want[k].size() < ext) want[k].resize(ext, 0); } }
    std::string wcb; if (!refuse && wc && crva) { unsigned k = cb.sec, n = (ncb + 1) * P, e = cb.off + n, ext = want[k].size(); if (k == ns - 1 && e > stored[k]) { stored[k] = e; if (e > ext) ext = (e + SA - 1) & ~(SA - 1); } if (e > ext || (ncb && e - P > stored[k])) refuse = true; else { for (unsigned i = 0; i <= ncb; i++) { uint64_t v = i < ncb ? base + list[i] : 0; for (unsigned j = 0; j < P; j++) wcb += (char)(v >> (8 * j)); } if (want[k].size() < ext) want[k].resize(ext, 0); } }
    image_directory d; bool th = THROWS(d = rebuild_tls(p, in, s, off, wc, wd, ev ? tls_data_expand_virtual : tls_data_expand_raw, save, strip)); sym_assert(th == refuse, "a TLS description is refused exactly when inconsistent or without room"); if (th) { sym_reach("tls-refused"); return; }
    uint32_t va = s.get_virtual_address(); sym_assert(d.get_rva() == va + pos && d.get_size() == SZ, "the directory lies at the aligned offset"); if (save) sym_assert(p.get_directory_rva(9) == va + pos && p.get_directory_size(9) == SZ, "directory entry set"); else { sym_assert(p.get_directory_rva(9) == 0x77 && p.get_directory_size(9) == 0x78, "directory entry kept"); p.set_directory_rva(9, d.get_rva()); p.set_directory_size(9, d.get_size()); }
    if (want[1].size() < pos + SZ) want[1].resize((pos + SZ + SA - 1) & ~(SA - 1), 0); want[1].replace(pos, SZ, st); if (wn) want[data.sec].replace(data.off, wn, wraw); if (!wcb.empty()) want[cb.sec].replace(cb.off, wcb.size(), wcb);
    sym_assert(layout_ok(p), "layout stays valid");
    for (unsigned i = 0; i < ns; i++) { std::string got = mapped(p, i); sym_assert(got.size() >= want[i].size(), "no section shrinks"); if (got.size() < want[i].size()) return; want[i].resize(got.size(), 0); sym_assert(sym_eqmem(got.data(), want[i].data(), got.size()), "structures, raw data and callbacks are written at their addresses, and nothing else changes"); if (i != 1 && i != ns - 1) sym_assert(eqs(hd[i], raw40(p.get_image_sections()[i])), "headers of other sections are untouched"); }
    if (start && L && data.off + L > want[data.sec].size()) { sym_assert(THROWS(get_tls_info(p)), "raw data outside its section is refused"); sym_reach("tls-outside"); return; }
    tls_info r = get_tls_info(p); sym_assert(r.get_raw_data_start_rva() == start && r.get_raw_data_end_rva() == end && r.get_index_rva() == idx && r.get_callbacks_rva() == crva, "addresses are read back"); sym_assert(r.get_size_of_zero_fill() == in.get_size_of_zero_fill() && r.get_characteristics() == in.get_characteristics(), "zero fill size and characteristics are read back");
    if (start && L) sym_assert(r.get_raw_data().size() == L && sym_eqmem(r.get_raw_data().data(), want[data.sec].data() + data.off, L), "raw data is read back"); else sym_assert(r.get_raw_data().empty(), "no raw data is invented");
    const tls_info::tls_callback_list& c = r.get_tls_callbacks(); unsigned n = crva ? list.size() : 0; sym_assert(c.size() == n, "as many callbacks are read back"); if (c.size() == n) for (unsigned i = 0; i < n; i++) sym_assert(c[i] == list[i], "callbacks are read back"); sym_reach("tls");
}
static const Place NONE = { -1, 0 };
extern "C" void c17_fields() { static const unsigned OFF[4] = { 0, 5, 0x103, 0x1f1 }; bool last = sym_choose(2, "last"); unsigned off = last ? OFF[sym_choose(4, "off")] : 0x200 - 44 + sym_choose(24, "fit"); trip(last, off, NONE, 0, 0, NONE, 0, sym_choose(64, "options"), 0); }
extern "C" void c17_data()
{
    unsigned opts = sym_choose(64, "options"); bool last = sym_choose(2, "last"); unsigned l = last ? 1 : 2; const Place D[6] = { { 0, 4 }, { 0, 0x1e }, { 0, 0x24 }, { 1, 0x80 }, { (int)l, last ? 0x1fdu : 0x2eu }, { (int)l, 0x1feu } }; unsigned L = sym_choose(5, "length"), k = sym_choose(3, "string"); unsigned slen = k == 0 ? L : k == 1 ? L + 2 : L / 2; trip(last, 8, D[sym_choose(6, "place")], L, slen, NONE, 0, opts, 0);
}
extern "C" void c17_data_edge() { unsigned opts = sym_choose(16, "options"); opts = (opts & 3) | (opts & 4 ? 32 : 0) | (opts & 8 ? 4 : 0) | 8; Place a = { 0, 0x1fe }, b = { 1, 0x1fe }; unsigned L = 1 + sym_choose(4, "length"); trip(false, 8, sym_choose(2, "place") ? a : b, L, L, NONE, 0, opts, 0); }
extern "C" void c17_callbacks()
{
    unsigned opts = sym_choose(64, "options"); bool last = sym_choose(2, "last"); unsigned l = last ? 1 : 2; unsigned P = opts & 1 ? 8 : 4; unsigned n = sym_choose(4, "n"); const Place C[7] = { { 0, 8 }, { 0, 0x20 - P * n }, { 0, 0x20 - P * n + 1 }, { 1, 0x90 }, { (int)l, last ? 0x1f0u : 0x28u }, { 1, 0x200 - P * (n ? n : 1) }, { 1, 0x200 - P * n - P } }; trip(last, 8, NONE, 0, 0, C[sym_choose(7, "place")], n, opts, 0);
}
extern "C" void c17_both()
{
    unsigned opts = sym_choose(64, "options"); bool last = sym_choose(2, "last"); static const Place D[3] = { { 0, 1 }, { 1, 0x41 }, { 1, 0x1fa } }, C[3] = { { 0, 8 }, { 1, 0x48 }, { 1, 0x1d8 } }; unsigned L = 3 + sym_choose(2, "length"); trip(last, 0x60, D[sym_choose(3, "data")], L, L, C[sym_choose(3, "callbacks")], 1 + sym_choose(2, "n"), opts, sym_choose(3, "inconsistent"));
}
// long raw data and many callbacks
extern "C" void c17_large()
{
    static const unsigned LL[6] = { 255, 256, 0x1ff0, 0xffff, 0x10000, 0x10001 }; static const unsigned NC[3] = { 255, 256, 300 }; bool last = LARGE = true; unsigned o = sym_choose(4, "options"), opts = 8 + 16 + (o & 1 ? 1 : 0) + (o & 2 ? 2 + 32 : 4); unsigned k = sym_choose(9, "case"); Place d = { 1, 0x80 }, c = { 0, 8 };
    if (k < 6) { trip(last, 8, d, LL[k], LL[k] - (o & 1), c, 1, opts, 0); } else { Place e = { 0, 4 }; trip(last, 8, e, 2, 2, d, NC[k - 6], opts, 0); }
}
