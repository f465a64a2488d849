// C16: relocation tables round-trip; rebasing.
#include "dir.h"
#include "pe_relocations.h"
static void trip(bool middle, unsigned maxt, unsigned maxe)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }, OFF[4] = { 0, 5, 0x1f6, 0x203 }; unsigned opt = sym_choose(4, "options"); bool pe64 = opt & 1, save = opt != 1, strip = opt >= 2; pe_base p = dirimage(pe64, middle ? 3 : 2, LEN); section& s = p.get_image_sections()[1]; p.set_characteristics_flags(1);
    unsigned nt = sym_choose(maxt + 1, "tables"), need = 0; relocation_table_list l; for (unsigned i = 0; i < nt; i++) { relocation_table t(sym_u32("rva")); unsigned n = sym_choose(maxe + 1, "entries"); for (unsigned k = 0; k < n; k++) { relocation_entry e; uint16_t v = sym_u16("entry"); if (sym_choose(2, "form")) e = relocation_entry(v); else e = relocation_entry(v & 0xfff, v >> 12); t.add_relocation(e); sym_assert(e.get_item() == v && e.get_rva() == (v & 0xfff) && e.get_type() == v >> 12, "entry fields"); } l.push_back(t); need += 8 + 2 * ((n + 1) & ~1); }
    unsigned off = middle ? 0x200 - need + 4 - sym_choose(9, "fit") : OFF[sym_choose(4, "offset")], pos = (off + 3) & ~3u; Others o = others(p, 1); std::string before = s.get_raw_data(); p.set_directory_rva(5, 0x77); p.set_directory_size(5, 0x78); uint16_t dll = p.get_dll_characteristics();
    image_directory d; bool th = THROWS(d = rebuild_relocations(p, l, s, off, save, strip)); if (th) { sym_assert(middle && pos + need + 3 > 0x200, "relocations are refused only when they do not fit"); sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("reloc-refused"); return; }
    sym_assert(!middle || pos + need <= 0x200, "relocations that do not fit are refused"); sym_assert(others_kept(p, o) && layout_ok(p), "other sections are untouched"); size_t k = off < before.size() ? off : before.size(); sym_assert(s.get_raw_data().size() >= k && sym_eqmem(s.get_raw_data().data(), before.data(), k), "bytes before the offset are untouched");
    uint32_t dr = d.get_rva(); sym_assert(dr == s.get_virtual_address() + pos && d.get_size() == need, "the directory has the size of its blocks"); sym_assert(save ? p.get_directory_rva(5) == dr && p.get_directory_size(5) == need && !p.check_characteristics_flag(1) && (p.get_dll_characteristics() & 0x40) : p.get_directory_rva(5) == 0x77 && p.get_directory_size(5) == 0x78 && p.check_characteristics_flag(1) && p.get_dll_characteristics() == dll, "headers are updated exactly on request"); p.set_directory_rva(5, dr); p.set_directory_size(5, need); p.clear_characteristics_flags(1);
    uint32_t at = dr; for (unsigned i = 0; i < nt; i++) { const relocation_table::relocation_list& e = l[i].get_relocations(); unsigned n = e.size(), sz = 8 + 2 * ((n + 1) & ~1); sym_assert(at % 4 == 0 && u32_at(p, at) == l[i].get_rva() && u32_at(p, at + 4) == sz, "blocks are four-byte aligned with the right size"); for (unsigned k = 0; k < n; k++) sym_assert(u16_at(p, at + 8 + 2 * k) == e[k].get_item(), "entries in order"); if (n & 1) sym_assert(u16_at(p, at + 8 + 2 * n) == 0, "padding is absolute"); at += sz; }
    bool abs = sym_choose(2, "absolute"); relocation_table_list r = get_relocations(p, abs); sym_assert(r.size() == nt, "the same pages are read back"); if (r.size() != nt) return;
    for (unsigned i = 0; i < nt; i++) { const relocation_table::relocation_list &e = l[i].get_relocations(), &g = r[i].get_relocations(); sym_assert(r[i].get_rva() == l[i].get_rva(), "page address"); unsigned q = 0; for (unsigned k = 0; k < e.size(); k++) { if (!abs && e[k].get_type() == 0) continue; sym_assert(q < g.size() && g[q < g.size() ? q : 0].get_item() == e[k].get_item(), "the same entries are read back"); q++; } if (abs && (e.size() & 1)) { sym_assert(q < g.size() && g[q < g.size() ? q : 0].get_item() == 0, "padding is listed with absolute entries"); q++; } sym_assert(g.size() == q, "no other entries"); }
    sym_reach("relocs");
}
extern "C" void c16_last() { trip(false, 2, 3); }
extern "C" void c16_fit() { trip(true, 2, 2); }
extern "C" void c16_three() { trip(false, 3, 2); }
// rebasing: fields anywhere in the sections, also overlapping or out of range
static void rebase(bool pe64, unsigned nr)
{
    pe_base p = mkimage(pe64, 0x1000); std::string d[2] = { sym_str(16, "data0"), sym_str(13, "data1") }; attach(p, 0x1000, 0x1000, 0x400, 0x200, d[0]); attach(p, 0x2000, 0x1000, 0x600, 0x200, d[1]); p.update_image_size(); uint64_t ob = pe64 ? sym_u64("oldbase") : sym_u32("oldbase"), nb = pe64 ? sym_u64("newbase") : sym_u32("newbase"), delta = nb - ob; p.set_image_base_64(ob); std::string hd = hdrs(p); Others o = others(p, 9); std::string want[2] = { d[0], d[1] };
    relocation_table_list l; bool bad = false; std::vector<unsigned> used; static const unsigned TY[3] = { 3, 10, 0 };
    for (unsigned i = 0; i < nr; i++) { unsigned ty = TY[sym_choose(3, "type")], sec = sym_choose(2, "section"), w = ty == 10 ? 8 : 4; static const unsigned AT[6] = { 0, 1, 4, 5, 8, 12 }; unsigned at = AT[sym_choose(6, "at")]; if (ty) { for (size_t j = 0; j < used.size(); j += 2) if (used[j] < 0x100 * sec + at + w && used[j + 1] > 0x100 * sec + at && !(used[j] == 0x100 * sec + at && used[j + 1] == 0x100 * sec + at + w)) return; used.push_back(0x100 * sec + at); used.push_back(0x100 * sec + at + w); } uint32_t page = sym_choose(2, "page") ? 0x1000 * (1 + sec) : 0x800 + 0x1000 * sec; relocation_table t(page); t.add_relocation(relocation_entry(0x1000 * (1 + sec) + at - page, ty)); if (sym_choose(2, "pad")) t.add_relocation(relocation_entry(0, 0)); l.push_back(t);
        if (ty == 0 || bad) continue; if (at + w > want[sec].size()) { bad = true; continue; } if (w == 8) put64(want[sec], at, get64(want[sec], at) + delta); else put32(want[sec], at, get32(want[sec], at) + (uint32_t)delta); }
    bool th = THROWS(rebase_image(p, l, nb)); sym_assert(th == bad, "rebasing is refused exactly when a field is not stored in a section"); if (th) { sym_reach("rebase-refused"); return; }
    for (int i = 0; i < 2; i++) { sym_assert(eqs(p.get_image_sections()[i].get_raw_data(), want[i]), "each relocated field and no other byte is adjusted"); sym_assert(eqs(raw40(p.get_image_sections()[i]), o.h[i]), "section headers are untouched"); } sym_assert(p.get_image_base_64() == nb, "the new image base is stored"); rebase_image(p, l, ob); sym_assert(others_kept(p, o) && eqs(hd, hdrs(p)), "rebasing back restores the image"); sym_reach("rebased");
}
extern "C" void c16_rebase64() { rebase(true, 2); }
extern "C" void c16_rebase32() { rebase(false, 2); }
// many entries and many pages
extern "C" void c16_large()
{
    static const unsigned LEN[2] = { 0x20, 0x20 }, NE[8] = { 255, 256, 257, 4096, 32763, 32764, 32765, 40001 }, NT[3] = { 255, 256, 300 }; bool pe64 = sym_choose(2, "pe64"); pe_base p = dirimage(pe64, 2, LEN); section& s = p.get_image_sections()[1]; relocation_table_list l; unsigned k = sym_choose(11, "case"); uint32_t need = 0;
    if (k < 8) { relocation_table t(sym_u32("rva")); for (unsigned i = 0; i < NE[k]; i++) t.add_relocation(relocation_entry(i == 0 || i == 255 || i == NE[k] - 1 ? sym_u16("entry") : (uint16_t)(0x3000 + i % 0xfff))); l.push_back(t); relocation_table u(sym_u32("rva")); u.add_relocation(relocation_entry(sym_u16("entry"))); l.push_back(u); need = 8 + 2 * ((NE[k] + 1) & ~1u) + 12; }
    else for (unsigned i = 0; i < NT[k - 8]; i++) { relocation_table t(i == 255 ? sym_u32("rva") : 0x1000 * i); t.add_relocation(relocation_entry(i == 254 ? sym_u16("entry") : (uint16_t)(0x3000 + i))); l.push_back(t); need += 12; }
    image_directory d; bool th = THROWS(d = rebuild_relocations(p, l, s, 5)); sym_assert(!th, "large relocation tables are written to the last section"); if (th) return; sym_assert(layout_ok(p) && d.get_size() == need && p.get_directory_size(5) == need, "the directory has the size of its blocks"); std::string b; if (!bytes_at(p, d.get_rva(), need, b)) { sym_assert(0, "blocks lie in the section"); return; } uint32_t at = 0;
    for (unsigned i = 0; i < l.size(); i++) { const relocation_table::relocation_list& e = l[i].get_relocations(); uint32_t n = e.size(), sz = 8 + 2 * ((n + 1) & ~1u); sym_assert(at + sz <= need && get32(b, at) == l[i].get_rva() && get32(b, at + 4) == sz, "blocks have the right address and size"); for (unsigned q = 0; q < n; q++) sym_assert(get16(b, at + 8 + 2 * q) == e[q].get_item(), "entries in order"); at += sz; }
    relocation_table_list r = get_relocations(p, true); sym_assert(r.size() == l.size(), "the same pages are read back"); if (r.size() != l.size()) return;
    for (unsigned i = 0; i < l.size(); i++) { const relocation_table::relocation_list &e = l[i].get_relocations(), &g = r[i].get_relocations(); sym_assert(r[i].get_rva() == l[i].get_rva() && g.size() == ((e.size() + 1) & ~1u), "page address and length"); for (unsigned q = 0; q < e.size() && q < g.size(); q++) sym_assert(g[q].get_item() == e[q].get_item(), "the same entries are read back"); } sym_reach("large");
}
