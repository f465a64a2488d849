// C38: an image given several directories, written and opened again, has them all.
#include "dir.h"
#include <sstream>
#include "pe_imports.h"
#include "pe_exports.h"
#include "pe_relocations.h"
#include "pe_tls.h"
#include "pe_load_config.h"
#include "pe_bound_import.h"
#include "pe_resources.h"
#include "pe_rebuilder.h"
#include "pe_factory.h"
enum { NK = 7, SLOT = 0x200 };
// what one directory of each kind holds
struct Given { uint16_t w[4]; uint32_t d[4]; std::string s, t; bool on; };
static Given given(unsigned k) { Given g; g.on = true; for (unsigned i = 0; i < 4; i++) { g.w[i] = sym_u16("word"); g.d[i] = sym_u32("dword"); } g.s = sym_name(2, "name"); g.t = sym_name(3, "name"); if (k == 0) sym_assume(g.w[1] != 0); return g; }
static void give(unsigned k, const Given& g, pe_base& p, section& s, uint32_t off, bool strip)
{
    if (k == 0) { import_library l; l.set_name(g.s); l.set_timestamp(g.d[0]); imported_function f; f.set_hint(g.w[0]); f.set_name(g.t); f.set_iat_va(0x100u | g.w[2]); l.add_import(f); imported_function o; o.set_iat_va(0x80u | g.w[3]); o.set_ordinal(g.w[1]); l.add_import(o); imported_functions_list v; v.push_back(l); import_rebuilder_settings st; st.set_offset_from_section_start(off); st.enable_auto_strip_last_section(strip); rebuild_imports(p, v, s, st); }
    else if (k == 1) { export_info i; i.set_name(g.s); i.set_timestamp(g.d[0]); exported_functions_list v; exported_function a, b; a.set_ordinal(3); a.set_name(g.t); a.set_rva(0x1010 + (g.w[0] & 0xff)); b.set_ordinal(5); b.set_forwarded_name(g.t); v.push_back(a); v.push_back(b); rebuild_exports(p, i, v, s, off, true, strip); }
    else if (k == 2) { relocation_table_list v; for (unsigned x = 0; x < 2; x++) { relocation_table t; t.set_rva(g.d[x]); for (unsigned i = 0; i < 1 + 2 * x; i++) t.add_relocation(relocation_entry(g.w[i] & 0xfff, 3)); v.push_back(t); } rebuild_relocations(p, v, s, off, true, strip); }
    else if (k == 3) { tls_info t; t.set_raw_data_start_rva(0x1100); t.set_raw_data_end_rva(0x1103); t.set_raw_data(g.t); t.set_index_rva(0x1120); t.set_callbacks_rva(0x1140); t.set_size_of_zero_fill(g.d[0]); t.set_characteristics(g.d[1]); t.add_tls_callback(0x1000 + (g.w[0] & 0xff)); t.recalc_raw_data_end_rva(); rebuild_tls(p, t, s, off, true, true, tls_data_expand_raw, true, strip); }
    else if (k == 4) { image_config_info c; c.set_time_stamp(g.d[0]); c.set_major_version(g.w[0]); c.set_security_cookie_va(g.d[1]); c.add_se_handler_rva(g.d[2]); c.add_lock_prefix_rva(0x1000 + (g.w[1] & 0xff)); rebuild_image_config(p, c, s, off, true, true, true, strip); }
    else if (k == 5) { bound_import_module_list v; bound_import b; b.set_module_name(g.s); b.set_timestamp(g.d[0]); b.add_module_ref(bound_import_ref(g.t, g.d[1])); v.push_back(b); rebuild_bound_imports(p, v, s, off, true, strip); }
    else { resource_directory r, d; r.set_timestamp(g.d[0]); resource_directory_entry e, f; f.set_id(g.w[0]); f.add_data_entry(resource_data_entry(g.t, g.d[1])); d.add_resource_directory_entry(f); e.set_id(g.w[1]); e.add_resource_directory(d); r.add_resource_directory_entry(e); rebuild_resources(p, r, s, off, true, strip); }
}
static bool has(unsigned k, const Given& g, const pe_base& p)
{
    try {
    if (k == 0) { imported_functions_list v = get_imported_functions(p); if (v.size() != 1 || v[0].get_imported_functions().size() != 2) return false; const import_library::imported_list& f = v[0].get_imported_functions(); if (!f[0].has_name() || f[1].has_name()) return false; return eqs(v[0].get_name(), g.s) & (v[0].get_timestamp() == g.d[0]) & (f[0].get_hint() == g.w[0]) & eqs(f[0].get_name(), g.t) & (f[1].get_ordinal() == g.w[1]); }
    if (k == 1) { export_info i; exported_functions_list v = get_exported_functions(p, i); if (v.size() != 2) return false; return eqs(i.get_name(), g.s) & (i.get_timestamp() == g.d[0]) & (v[0].get_ordinal() == 3) & eqs(v[0].get_name(), g.t) & (v[0].get_rva() == 0x1010u + (g.w[0] & 0xff)) & !v[0].is_forwarded() & (v[1].get_ordinal() == 5) & v[1].is_forwarded() & eqs(v[1].get_forwarded_name(), g.t); }
    if (k == 2) { relocation_table_list v = get_relocations(p); if (v.size() != 2) return false; bool ok = true; for (unsigned x = 0; x < 2; x++) { const relocation_table::relocation_list& r = v[x].get_relocations(); if (r.size() != 1 + 2 * x) return false; ok = ok & (v[x].get_rva() == g.d[x]); for (unsigned i = 0; i < r.size(); i++) ok = ok & (r[i].get_rva() == (g.w[i] & 0xfff)) & (r[i].get_type() == 3); } return ok; }
    if (k == 3) { tls_info t = get_tls_info(p); if (t.get_tls_callbacks().size() != 1) return false; return (t.get_raw_data_start_rva() == 0x1100) & (t.get_raw_data_end_rva() == 0x1103) & eqs(t.get_raw_data(), g.t) & (t.get_index_rva() == 0x1120) & (t.get_callbacks_rva() == 0x1140) & (t.get_size_of_zero_fill() == g.d[0]) & (t.get_characteristics() == g.d[1]) & (t.get_tls_callbacks()[0] == 0x1000u + (g.w[0] & 0xff)); }
    if (k == 4) { image_config_info c = get_image_config(p); if (c.get_se_handler_rvas().size() != 1 || c.get_lock_prefix_rvas().size() != 1) return false; return (c.get_time_stamp() == g.d[0]) & (c.get_major_version() == g.w[0]) & (c.get_security_cookie_va() == g.d[1]) & (c.get_se_handler_rvas()[0] == g.d[2]) & (c.get_lock_prefix_rvas()[0] == 0x1000u + (g.w[1] & 0xff)); }
    if (k == 5) { bound_import_module_list v = get_bound_import_module_list(p); if (v.size() != 1 || v[0].get_module_ref_list().size() != 1) return false; const bound_import_ref& r = v[0].get_module_ref_list()[0]; return eqs(v[0].get_module_name(), g.s) & (v[0].get_timestamp() == g.d[0]) & eqs(r.get_module_name(), g.t) & (r.get_timestamp() == g.d[1]); }
    resource_directory r = get_resources(p); if (r.get_entry_list().size() != 1 || r.get_entry_list()[0].includes_data()) return false; const resource_directory& d = r.get_entry_list()[0].get_resource_directory(); if (d.get_entry_list().size() != 1 || !d.get_entry_list()[0].includes_data()) return false; const resource_directory_entry& f = d.get_entry_list()[0];
    return (r.get_timestamp() == g.d[0]) & (r.get_entry_list()[0].get_id() == g.w[1]) & (f.get_id() == g.w[0]) & eqs(f.get_data_entry().get_data(), g.t) & (f.get_data_entry().get_codepage() == g.d[1]);
    } catch (const pe_exception&) { return false; }
}
static bool exists(unsigned k, const pe_base& p) { return k == 0 ? p.has_imports() : k == 1 ? p.has_exports() : k == 2 ? p.has_reloc() : k == 3 ? p.has_tls() : k == 4 ? p.has_config() : k == 5 ? p.has_bound_import() : p.has_resources(); }
static const char* const WHICH[NK] = { "the imports are read as given", "the exports are read as given", "the relocations are read as given", "the TLS directory is read as given", "the configuration is read as given", "the bound imports are read as given", "the resources are read as given" };
struct Session
{
    pe_base p; Given g[NK]; bool pe64; std::string text;
    explicit Session(bool x) : p(x ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000)), pe64(x) { for (unsigned i = 0; i < NK; i++) g[i].on = false; section s; s.set_name("text"); s.readable(true).executable(true); text = std::string(0x200, 't'); std::string m = sym_str(4, "text"); text.replace(0x180, 4, m); s.get_raw_data() = text; s.set_virtual_size(0x1000); p.add_section(s); }
    section& more(const char* name, const std::string& d, uint32_t vsize) { section s; s.set_name(name); s.readable(true); s.get_raw_data() = d; s.set_virtual_size(vsize); return p.add_section(s); }
    void step(unsigned k, section& s, uint32_t off, bool strip) { g[k] = given(k); give(k, g[k], p, s, off, strip); }
    void look(const pe_base& q, const char* m) { for (unsigned k = 0; k < NK; k++) { bool e = exists(k, q), h = g[k].on && has(k, g[k], q); sym_assert(e == g[k].on, m); sym_assert(h == g[k].on, WHICH[k]); } sym_assert(q.get_image_sections()[0].get_raw_data().size() >= 0x184 && sym_eqmem(q.get_image_sections()[0].get_raw_data().data() + 0x180, text.data() + 0x180, 4), "other bytes are kept"); sym_assert(layout_ok(q), "the layout is loadable"); }
    std::string written(bool strip) { std::ostringstream o; rebuild_pe(p, o, strip); return o.str(); }
    void finish(bool strip) { look(p, "every directory given so far is read back"); std::string f = written(strip); std::istringstream in(f); pe_base q(pe_factory::create_pe(in)); look(q, "every directory is read from the image written"); }
};
static const unsigned PERM[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
static void kinds(unsigned* k, unsigned n) { for (unsigned i = 0; i < n; i++) { k[i] = sym_choose(NK, "kind"); for (unsigned j = 0; j < i; j++) if (k[j] == k[i]) sym_done(); } }

// three directories, each in a section of its own
extern "C" void c38_own()
{
    Session s(sym_choose(2, "pe64")); unsigned k[3]; kinds(k, 3); bool strip = sym_choose(2, "strip"), bare = sym_choose(2, "stripdos");
    for (unsigned i = 0; i < 3; i++) { section& t = s.more("dir", std::string(1, 0), i == 1 ? 1 : 0x1000); s.step(k[i], t, i * 4, strip); } s.finish(bare); sym_reach("end");
}
// three directories one behind another in the last section, which grows
extern "C" void c38_append()
{
    Session s(sym_choose(2, "pe64")); unsigned k[3]; kinds(k, 3); bool strip = sym_choose(2, "strip"); s.more("dir", std::string(1, 0), 1); for (unsigned i = 0; i < 3; i++) s.step(k[i], s.p.get_image_sections().back(), i * SLOT, strip); s.finish(false); sym_reach("end");
}
// directories in any order into the slots of one section that holds other data, which is the last or not
static void slots(bool last)
{
    Session s(sym_choose(2, "pe64")); unsigned k[3]; kinds(k, 3); bool strip = sym_choose(2, "strip"); const unsigned* at = PERM[sym_choose(6, "order")]; std::string d(3 * SLOT, '\x5a'), m = sym_str(7, "behind") + "z"; for (unsigned i = 0; i < 3; i++) d.replace((i + 1) * SLOT - 8, 8, m); s.more("dir", d, 0x1000); if (!last) s.more("end", std::string(0x10, 'e'), 0x1000);
    for (unsigned i = 0; i < 3; i++) s.step(k[i], s.p.get_image_sections()[1], at[i] * SLOT, strip); s.finish(false);
    const std::string& r = s.p.get_image_sections()[1].get_raw_data(); for (unsigned i = 0; i < 3; i++) sym_assert(r.size() >= (i + 1) * SLOT && eqs(r.substr((i + 1) * SLOT - 8, 8), m), "data behind a directory is kept"); sym_reach("end");
}
extern "C" void c38_last() { slots(true); }
extern "C" void c38_middle() { slots(false); }
// replacing a directory in another place, then other steps that move things in the file
extern "C" void c38_again()
{
    Session s(sym_choose(2, "pe64")); unsigned k[2]; kinds(k, 2); unsigned what = sym_choose(5, "what"); s.more("dir", std::string(1, 0), 0x1000); s.step(k[0], s.p.get_image_sections().back(), 0, true); s.step(k[1], s.p.get_image_sections().back(), SLOT, false); s.look(s.p, "every directory given so far is read back");
    if (what == 0) s.p.realign_file(0x1000); else if (what == 1) s.more("new", std::string(0x300, 'n'), 0x2000); else if (what == 2) s.p.set_section_virtual_size(s.p.get_image_sections().back(), 0x3000); else if (what == 3) { std::string f = s.written(false); std::istringstream in(f); s.p = pe_base(pe_factory::create_pe(in)); } else { s.p.set_stub_overlay(std::string(0x41, 'o')); }
    section& t = s.more("dir2", std::string(1, 0), 0x1000); s.step(k[0], t, 8, true); s.finish(sym_choose(2, "stripdos")); sym_reach("end");
}
// all seven directories in one image, in 42 orders, each in its own section or one behind another, and then one of them is removed
extern "C" void c38_all()
{
    Session s(sym_choose(2, "pe64")); unsigned from = sym_choose(NK, "from"), by = 1 + sym_choose(NK - 1, "by"), own = sym_choose(2, "own"); bool strip = sym_choose(2, "strip"); s.more("dir", std::string(1, 0), 0x1000);
    for (unsigned i = 0; i < NK; i++) { if (own && i) s.more("dir", std::string(1, 0), 0x1000); s.step((from + i * by) % NK, s.p.get_image_sections().back(), own ? 0 : i * SLOT, strip); }
    s.finish(true); unsigned k = from; static const unsigned ID[NK] = { image_directory_entry_import, image_directory_entry_export, image_directory_entry_basereloc, image_directory_entry_tls, image_directory_entry_load_config, image_directory_entry_bound_import, image_directory_entry_resource };
    s.p.remove_directory(ID[k]); s.g[k].on = false; s.finish(false); sym_reach("end");
}
// directories of an image that was opened from a file are replaced where they are, in the slots they had
extern "C" void c38_replace()
{
    Session s(sym_choose(2, "pe64")); unsigned k[2]; kinds(k, 2); bool strip = sym_choose(2, "strip"), last = sym_choose(2, "last"); std::string d(3 * SLOT, '\x5a'), m = sym_str(7, "behind") + "z"; d.replace(3 * SLOT - 8, 8, m); s.more("dir", d, 0x1000); if (!last) s.more("end", std::string(0x10, 'e'), 0x1000);
    for (unsigned i = 0; i < 2; i++) s.step(k[i], s.p.get_image_sections()[1], i * SLOT, strip);
    std::string f = s.written(true); std::istringstream in(f); pe_base q(pe_factory::create_pe(in)); s.p = q; s.look(s.p, "every directory is read from the image written"); unsigned w = sym_choose(2, "which"); s.step(k[w], s.p.get_image_sections()[1], w * SLOT, strip); s.finish(false);
    const std::string& r = s.p.get_image_sections()[1].get_raw_data(); sym_assert(r.size() >= 3 * SLOT && eqs(r.substr(3 * SLOT - 8, 8), m), "data behind a directory is kept"); sym_reach("end");
}
