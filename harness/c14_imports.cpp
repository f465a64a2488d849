// C14: import tables round-trip.
#include "dir.h"
#include "pe_imports.h"
typedef std::vector<imported_function> Funcs;
static imported_function func(unsigned kind, bool pe64)
{
    imported_function f; uint64_t va = pe64 ? sym_u64("iatva") : sym_u32("iatva"); sym_assume(va != 0); f.set_iat_va(va);
    if (kind == 0) f.set_ordinal(sym_u16("ordinal")); else { f.set_name(sym_name(kind == 1 ? 1 : 4, "fname")); f.set_hint(sym_u16("hint")); }
    return f;
}
static imported_functions_list list(bool pe64, unsigned nl, unsigned nf, unsigned kinds = 3)
{
    imported_functions_list l;
    for (unsigned i = 0; i < nl; i++) { import_library b; b.set_name(sym_name(1 + 3 * (i & 1), "lib")); b.set_timestamp(sym_u32("time")); unsigned n = sym_choose(nf + 1, "funcs"); for (unsigned k = 0; k < n; k++) b.add_import(func(sym_choose(kinds, "kind"), pe64)); l.push_back(b); }
    return l;
}
// every table walked over the stored bytes, independently of the library's reader
static void decode(const pe_base& p, const imported_functions_list& l, uint32_t dir, bool pe64, bool orig, bool iatnames)
{
    unsigned w = pe64 ? 8 : 4; uint64_t snap = pe64 ? 0x8000000000000000ull : 0x80000000ull;
    for (size_t i = 0; i < l.size(); i++, dir += 20) {
        uint32_t oft = u32_at(p, dir), ts = u32_at(p, dir + 4), fwd = u32_at(p, dir + 8), name = u32_at(p, dir + 12), ft = u32_at(p, dir + 16); const Funcs& f = l[i].get_imported_functions();
        sym_assert(ts == l[i].get_timestamp() && fwd == 0, "timestamp in the descriptor"); sym_assert(str_at(p, name, l[i].get_name()), "library name where the descriptor points"); sym_assert((oft != 0) == orig && ft != 0, "lookup and address tables present as asked"); 
        for (int t = 0; t < 2; t++) {
            if (t == 0 && !oft) continue; uint32_t at = t == 0 ? oft : ft;
            for (size_t k = 0; k < f.size(); k++, at += w) {
                uint64_t v = ptr_at(p, at, pe64);
                if (t == 1 && !iatnames) { sym_assert(v == f[k].get_iat_va(), "the address table holds the bound addresses"); continue; }
                if (f[k].has_name()) { sym_assert(v < snap && v <= 0xffffffffu, "by-name thunk is an address"); sym_assert(u16_at(p, (uint32_t)v) == f[k].get_hint() && str_at(p, (uint32_t)v + 2, f[k].get_name()), "hint and name where the thunk points"); }
                else sym_assert(v == (snap | f[k].get_ordinal()), "by-ordinal thunk");
            }
            sym_assert(ptr_at(p, at, pe64) == 0, "thunks end with a null thunk");
        }
    }
    sym_assert(u32_at(p, dir) == 0 && u32_at(p, dir + 4) == 0 && u32_at(p, dir + 8) == 0 && u32_at(p, dir + 12) == 0 && u32_at(p, dir + 16) == 0, "descriptors end with a null descriptor");
}
static void same(const imported_functions_list& a, const imported_functions_list& b, bool iatva)
{
    sym_assert(a.size() == b.size(), "the same libraries are read back"); if (a.size() != b.size()) return;
    for (size_t i = 0; i < a.size(); i++) {
        sym_assert(eqs(a[i].get_name(), b[i].get_name()) && a[i].get_timestamp() == b[i].get_timestamp(), "library name and timestamp are read back"); const Funcs &f = a[i].get_imported_functions(), &g = b[i].get_imported_functions(); sym_assert(f.size() == g.size(), "the same functions are read back"); if (f.size() != g.size()) return;
        for (size_t k = 0; k < f.size(); k++) {
            sym_assert(f[k].has_name() == g[k].has_name(), "by-name or by-ordinal is read back"); if (f[k].has_name() != g[k].has_name()) return;
            if (f[k].has_name()) sym_assert(eqs(f[k].get_name(), g[k].get_name()) && f[k].get_hint() == g[k].get_hint(), "function name and hint are read back"); else sym_assert(f[k].get_ordinal() == g[k].get_ordinal(), "ordinal is read back");
            if (iatva) sym_assert(f[k].get_iat_va() == g[k].get_iat_va(), "bound address is read back");
        }
    }
}
static import_rebuilder_settings settings(bool& orig) { import_rebuilder_settings s(true, sym_choose(2, "zeroiat")); s.build_original_iat(orig = sym_choose(2, "orig")); bool sv = sym_choose(2, "save"); s.save_iat_and_original_iat_rvas(sv, sv && sym_choose(2, "rewrite")); s.fill_missing_original_iats(sym_choose(2, "fill")); s.enable_auto_strip_last_section(sym_choose(2, "strip")); return s; }
static const unsigned OFF[3] = { 0, 5, 0x203 };
static void fresh(bool pe64, unsigned nl, unsigned nf, bool middle)
{
    static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }; pe_base p = dirimage(pe64, middle ? 3 : 2, LEN); unsigned t = 1; section& s = p.get_image_sections()[t]; unsigned off = OFF[sym_choose(3, "offset")]; imported_functions_list l = list(pe64, nl, nf); bool orig; import_rebuilder_settings st = settings(orig); st.set_offset_from_section_start(off);
    Others o = others(p, t); std::string before = s.get_raw_data(); p.set_directory_rva(12, 0x77); p.set_directory_size(12, 0x78);
    unsigned w = pe64 ? 8 : 4, strs = 0, iat = 0; for (size_t i = 0; i < l.size(); i++) { strs += l[i].get_name().size() + 1; const Funcs& f = l[i].get_imported_functions(); iat += w * (f.size() + 1); for (size_t k = 0; k < f.size(); k++) if (f[k].has_name()) strs += f[k].get_name().size() + 3; }
    unsigned least = off + strs + 20 * (l.size() + 1) + iat * (orig ? 2 : 1); image_directory d; bool th = THROWS(d = rebuild_imports(p, l, s, st));
    if (th) { sym_assert(middle && least + 8 + iat > 0x200, "rebuilding is refused only when a section that cannot grow is too small"); sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("import-refused"); return; }
    sym_assert(!middle || least <= 0x200, "tables larger than a section that cannot grow are refused");
    sym_assert(others_kept(p, o), "other sections are untouched"); sym_assert(s.get_raw_data().size() >= off, "bytes before the offset are kept"); size_t kept = off < before.size() ? off : before.size(); sym_assert(sym_eqmem(s.get_raw_data().data(), before.data(), kept), "bytes before the offset are untouched"); sym_assert(layout_ok(p), "layout stays valid");
    uint32_t va = s.get_virtual_address(); sym_assert(d.get_rva() == p.get_directory_rva(1) && d.get_size() == p.get_directory_size(1) && d.get_rva() >= va + off && d.get_size() >= 20 * (l.size() + 1), "the import directory entry describes the tables"); bool z = st.zero_directory_entry_iat(); sym_assert(p.get_directory_rva(12) == (z ? 0 : 0x77) && p.get_directory_size(12) == (z ? 0 : 0x78), "the IAT directory entry is cleared exactly on request");
    decode(p, l, d.get_rva(), pe64, orig, !orig); imported_functions_list r = get_imported_functions(p); same(l, r, orig); sym_reach("imports");
    for (size_t i = 0; i < l.size() && i < r.size(); i++) sym_assert(r[i].get_rva_to_iat() >= va + off && (!orig || r[i].get_rva_to_original_iat() >= va + off), "new tables lie at or after the offset");
}
extern "C" void c14_last32() { fresh(false, sym_choose(3, "libs"), 2, false); }
extern "C" void c14_last64() { fresh(true, sym_choose(3, "libs"), 2, false); }
extern "C" void c14_middle32() { fresh(false, sym_choose(3, "libs"), 2, true); }
extern "C" void c14_middle64() { fresh(true, sym_choose(3, "libs"), 1, true); }
extern "C" void c14_three() { fresh(sym_choose(2, "pe64"), 3, 1, false); }
// sections too small by a byte or two, or just large enough
extern "C" void c14_fit()
{
    bool pe64 = sym_choose(2, "pe64"); static const unsigned LEN[3] = { 0x20, 0x200, 0x10 }; pe_base p = dirimage(pe64, 3, LEN); section& s = p.get_image_sections()[1]; imported_functions_list l = list(pe64, 1, 2); bool orig; import_rebuilder_settings st = settings(orig); Others o = others(p, 1); std::string before = s.get_raw_data();
    unsigned w = pe64 ? 8 : 4, strs = l[0].get_name().size() + 1; const Funcs& f = l[0].get_imported_functions(); unsigned iat = w * (f.size() + 1); for (size_t k = 0; k < f.size(); k++) if (f[k].has_name()) strs += f[k].get_name().size() + 3;
    unsigned least = strs + 40 + iat * (orig ? 2 : 1); unsigned off = 0x200 - least + 2 - sym_choose(w + iat + 4, "slack"); st.set_offset_from_section_start(off); bool th = THROWS(rebuild_imports(p, l, s, st));
    if (th) { sym_assert(off + least + w + iat > 0x200, "rebuilding is refused only when a section that cannot grow is too small"); sym_assert(others_kept(p, o) && eqs(before, s.get_raw_data()), "a refused rebuild changes nothing"); sym_reach("fit-refused"); return; }
    sym_assert(off + least <= 0x200, "tables larger than a section that cannot grow are refused"); sym_assert(others_kept(p, o) && layout_ok(p), "other sections are untouched"); sym_assert(sym_eqmem(s.get_raw_data().data(), before.data(), off), "bytes before the offset are untouched"); decode(p, l, p.get_directory_rva(1), pe64, orig, !orig); same(l, get_imported_functions(p), orig); sym_reach("fit");
}
// existing tables kept in place, with or without new contents, in section 0; descriptors and names go to section 1
static void saved(bool pe64)
{
    static const unsigned LEN[2] = { 0x200, 0x10 }; pe_base p = dirimage(pe64, 2, LEN); unsigned w = pe64 ? 8 : 4; section& a = p.get_image_sections()[0]; bool orig1 = sym_choose(2, "orig1"), orig2 = sym_choose(2, "orig2"), rewrite = sym_choose(2, "rewrite"), fill = sym_choose(2, "fill"); if (!orig2 && !rewrite && orig1) return; bool short_ = false; // a bound IAT alone does not name its functions
    { imported_functions_list l0 = list(pe64, 1 + sym_choose(2, "libs"), 2, 2); import_rebuilder_settings st; st.build_original_iat(orig1); st.save_iat_and_original_iat_rvas(false); bool strip1 = sym_choose(2, "strip1"); st.enable_auto_strip_last_section(strip1); short_ = strip1; rebuild_imports(p, l0, a, st); }
    imported_functions_list l = get_imported_functions(p), l0 = l; 
    if (rewrite && sym_choose(2, "rename")) for (size_t i = 0; i < l.size(); i++) { import_library b(l[i]); b.clear_imports(); const Funcs& f = l[i].get_imported_functions(); size_t cut = f.size() && i == 0 && sym_choose(2, "fewer"); for (size_t k = 0; k < f.size() - cut; k++) b.add_import(func(sym_choose(3, "newkind"), pe64)); b.set_name(sym_name(2, "newlib")); l[i] = b; }
    bool app = sym_choose(2, "append"); if (app) { import_library b; b.set_name("x"); b.add_import(func(2, pe64)); l.push_back(b); }
    std::string before = a.get_raw_data(); import_rebuilder_settings st; st.build_original_iat(orig2); st.save_iat_and_original_iat_rvas(true, rewrite); st.fill_missing_original_iats(fill); bool th = THROWS(rebuild_imports(p, l, p.get_image_sections()[1], st)); sym_assert(!th || (short_ && rewrite), "tables that are stored completely can be rewritten in place"); if (th) return;
    imported_functions_list r = get_imported_functions(p); same(l, r, false); std::string after = a.get_raw_data(); sym_assert(layout_ok(p) && after.size() == before.size(), "layout stays valid");
    uint32_t va = a.get_virtual_address(); for (size_t i = 0; i < l.size() && i < r.size(); i++) {
        uint32_t iat = l[i].get_rva_to_iat(), oft = l[i].get_rva_to_original_iat(); unsigned n = w * (l[i].get_imported_functions().size() + 1); if (!iat) continue;
        sym_assert(r[i].get_rva_to_iat() == iat, "the address table stays in place"); if (oft && orig2) sym_assert(r[i].get_rva_to_original_iat() == oft, "the lookup table stays in place"); if (!orig2) sym_assert(r[i].get_rva_to_original_iat() == 0, "no lookup table"); if (!oft && orig2 && fill) sym_assert(r[i].get_rva_to_original_iat() >= p.get_image_sections()[1].get_virtual_address(), "a missing lookup table is built");
        if (rewrite && iat - va + n <= after.size()) { // the rewritten address table, walked without the library's reader: bound addresses if there is a lookup table, else the names
            const Funcs& f = l[i].get_imported_functions(); bool named = !(orig2 && (fill || oft)); uint64_t snap = pe64 ? 0x8000000000000000ull : 0x80000000ull;
            for (size_t k = 0; k < f.size(); k++) { uint64_t v = ptr_at(p, iat + w * k, pe64); if (!named) sym_assert(v == f[k].get_iat_va(), "the rewritten address table holds the bound addresses"); else if (f[k].has_name()) sym_assert(v < snap && v <= 0xffffffffu && u16_at(p, (uint32_t)v) == f[k].get_hint() && str_at(p, (uint32_t)v + 2, f[k].get_name()), "the rewritten thunk points to hint and name"); else sym_assert(v == (snap | f[k].get_ordinal()), "the rewritten by-ordinal thunk"); }
            sym_assert(ptr_at(p, iat + w * f.size(), pe64) == 0, "the rewritten table ends with a null thunk"); if (oft && orig2 && oft - va + n <= after.size()) sym_assert(ptr_at(p, oft + w * f.size(), pe64) == 0, "the rewritten lookup table ends with a null thunk"); }
        if (rewrite) { for (unsigned k = 0; k < n; k++) { if (iat - va + k < after.size()) before[iat - va + k] = after[iat - va + k]; if (oft && orig2 && oft - va + k < after.size()) before[oft - va + k] = after[oft - va + k]; } }
    }
    sym_assert(eqs(before, after), "only the thunks that were asked for are rewritten"); sym_reach("saved");
}
// tables placed by the caller over arbitrary old bytes of section 0, up to its very end and behind it
static void placed(bool pe64)
{
    static const unsigned LEN[2] = { 0x200, 0x10 }; pe_base p = dirimage(pe64, 2, LEN); unsigned w = pe64 ? 8 : 4; section& a = p.get_image_sections()[0]; bool fill = sym_choose(2, "fill"); imported_functions_list l = list(pe64, 1, 2); if (sym_choose(2, "second")) { import_library b; b.set_name("x"); b.add_import(func(2, pe64)); l.push_back(b); }
    unsigned n = w * (l[0].get_imported_functions().size() + 1), kind = sym_choose(4, "place"), iat = kind == 1 ? 0x200 - n : kind == 3 ? 0x200 - n + w : 0x21, oft = kind == 2 ? 0x200 - n : 0x100; uint32_t va = a.get_virtual_address(); l[0].set_rva_to_iat(va + iat); bool has = sym_choose(2, "lookup"); if (has) l[0].set_rva_to_original_iat(va + oft);
    bool orig = sym_choose(2, "orig"); import_rebuilder_settings st; st.build_original_iat(orig); st.save_iat_and_original_iat_rvas(true, true); st.fill_missing_original_iats(fill); std::string before = a.get_raw_data(); image_directory d; bool th = THROWS(d = rebuild_imports(p, l, p.get_image_sections()[1], st));
    sym_assert(th == (kind == 3), "a table is refused exactly when it does not fit its place"); if (th) return; bool named = !(orig && (fill || has));
    imported_functions_list first(l.begin(), l.begin() + 1); uint32_t dir = d.get_rva(); bool lookup = orig && (fill || has); const Funcs& f = l[0].get_imported_functions(); sym_assert(u32_at(p, dir + 16) == va + iat && (u32_at(p, dir) != 0) == lookup && (!(orig && has) || u32_at(p, dir) == va + oft), "the tables are where the caller placed them"); sym_assert(str_at(p, u32_at(p, dir + 12), l[0].get_name()) && u32_at(p, dir + 4) == l[0].get_timestamp(), "library name and timestamp");
    for (int t = 0; t < 2; t++) { if (t == 0 && !lookup) continue; uint32_t at = t == 0 ? u32_at(p, dir) : va + iat; uint64_t snap = pe64 ? 0x8000000000000000ull : 0x80000000ull;
        for (size_t k = 0; k < f.size(); k++, at += w) { uint64_t v = ptr_at(p, at, pe64); if (t == 1 && !named) sym_assert(v == f[k].get_iat_va(), "the placed address table holds the bound addresses"); else if (f[k].has_name()) sym_assert(v < snap && v <= 0xffffffffu && u16_at(p, (uint32_t)v) == f[k].get_hint() && str_at(p, (uint32_t)v + 2, f[k].get_name()), "the placed thunk points to hint and name"); else sym_assert(v == (snap | f[k].get_ordinal()), "the placed by-ordinal thunk"); }
        sym_assert(ptr_at(p, at, pe64) == 0, "the placed table ends with a null thunk"); }
    imported_functions_list r = get_imported_functions(p); same(l, r, false); std::string after = a.get_raw_data(); sym_assert(layout_ok(p) && after.size() == before.size(), "layout stays valid"); if (after.size() != before.size()) return;
    for (unsigned k = 0; k < n; k++) { before[iat + k] = after[iat + k]; if (has && orig) before[oft + k] = after[oft + k]; } sym_assert(eqs(before, after), "only the placed tables are written"); sym_reach("placed");
}
extern "C" void c14_placed32() { placed(false); }
extern "C" void c14_placed64() { placed(true); }
extern "C" void c14_saved32() { saved(false); }
extern "C" void c14_saved64() { saved(true); }
// long names, many functions, many libraries
extern "C" void c14_large()
{
    bool pe64 = sym_choose(2, "pe64"), orig = sym_choose(2, "orig"); static const unsigned LEN[2] = { 0x20, 0x20 }, NL[6] = { 126, 254, 255, 256, 1023, 4095 }, NF[3] = { 255, 256, 1030 }; pe_base p = dirimage(pe64, 2, LEN); section& s = p.get_image_sections()[1]; imported_functions_list l; unsigned k = sym_choose(11, "case"); import_library b; b.set_name("lib"); b.set_timestamp(sym_u32("time"));
    if (k < 6) { b.set_name(sym_name(1, "lib") + std::string(NL[k], 'l') + sym_name(1, "libend")); imported_function f = func(1, pe64); f.set_name(sym_name(1, "f") + std::string(NL[k] - 1, 'x') + sym_name(1, "fend")); b.add_import(f); b.add_import(func(0, pe64)); l.push_back(b); b.set_name("x"); l.push_back(b); }
    else if (k < 9) { for (unsigned i = 0; i < NF[k - 6]; i++) if (i == 0 || i == 255 || i == NF[k - 6] - 1) b.add_import(func(i & 1, pe64)); else { imported_function f; f.set_iat_va(7 * i + 1); if (i % 3) f.set_ordinal(i); else { f.set_name(std::string(1, 'a' + i % 26)); f.set_hint(i); } b.add_import(f); } l.push_back(b); b.clear_imports(); b.add_import(func(1, pe64)); l.push_back(b); }
    else for (unsigned i = 0; i < (k == 9 ? 255u : 257u); i++) { import_library c; c.set_name(std::string(1 + i % 3, 'a' + i % 26)); c.set_timestamp(i ? i : sym_u32("first")); imported_function f; f.set_iat_va(i + 1); f.set_ordinal(i); if (i == 255) f = func(1, pe64); c.add_import(f); l.push_back(c); }
    import_rebuilder_settings st(true, false); st.build_original_iat(orig); st.set_offset_from_section_start(5); image_directory d; bool th = THROWS(d = rebuild_imports(p, l, s, st)); sym_assert(!th, "large import tables are written to the last section"); if (th) return; sym_assert(layout_ok(p), "layout stays valid"); decode(p, l, d.get_rva(), pe64, orig, !orig); same(l, get_imported_functions(p), orig); sym_reach("large");
}
