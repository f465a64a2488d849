// Newly created description objects are empty: every field is zero, false or has no elements.
// They are created over arbitrary old memory, and one created by an explicit value keeps just that.
#include "psx.h"
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <new>
using namespace pe_bliss; using namespace pe_win;
template <class T> struct fresh { union { char room[sizeof(T)]; uint64_t a; }; T* p; fresh() { sym_make(room, sizeof(T), "old"); p = new (room) T(); } ~fresh() { p->~T(); } const T* operator->() const { return p; } };
#define Z(x) sym_assert((x) == 0, #x " of a new object")
#define T_(x) sym_assert((x), #x " of a new object")
extern "C" void c14_new() { fresh<imported_function> f; T_(!f->has_name()); T_(f->get_name().empty()); Z(f->get_hint()); Z(f->get_ordinal()); Z(f->get_iat_va());
  fresh<import_library> l; T_(l->get_name().empty()); Z(l->get_rva_to_iat()); Z(l->get_rva_to_original_iat()); Z(l->get_timestamp()); T_(l->get_imported_functions().empty());
  fresh<import_rebuilder_settings> s; Z(s->get_offset_from_section_start()); T_(s->build_original_iat() && s->save_iat_and_original_iat_rvas() && s->auto_set_to_pe_headers() && s->auto_strip_last_section_enabled()); T_(!s->fill_missing_original_iats() && !s->zero_directory_entry_iat() && !s->rewrite_iat_and_original_iat_contents()); sym_reach("new"); }
extern "C" void c15_new() { fresh<exported_function> f; Z(f->get_ordinal()); Z(f->get_rva()); T_(!f->has_name() && f->get_name().empty() && !f->is_forwarded() && f->get_forwarded_name().empty());
  fresh<export_info> e; Z(e->get_characteristics()); Z(e->get_timestamp()); Z(e->get_major_version()); Z(e->get_minor_version()); T_(e->get_name().empty()); Z(e->get_ordinal_base()); Z(e->get_number_of_functions()); Z(e->get_number_of_names()); Z(e->get_rva_of_functions()); Z(e->get_rva_of_names()); Z(e->get_rva_of_name_ordinals()); sym_reach("new"); }
extern "C" void c16_new() { fresh<relocation_entry> r; Z(r->get_rva()); Z(r->get_type()); Z(r->get_item()); fresh<relocation_table> t; Z(t->get_rva()); T_(t->get_relocations().empty());
  uint16_t v = sym_u16("item"), o = sym_u16("offset"), y = sym_u16("kind"); sym_assume(o < 0x1000); sym_assume(y < 16); relocation_entry a(v), b(o, y); T_(a.get_rva() == (v & 0xfff)); T_(a.get_type() == v >> 12); T_(a.get_item() == v); T_(b.get_rva() == o); T_(b.get_type() == y); T_(b.get_item() == (uint16_t)(o | y << 12)); relocation_entry c; c.set_item(v); T_(c.get_rva() == (v & 0xfff)); T_(c.get_type() == v >> 12); c.set_rva(o); c.set_type(y); T_(c.get_item() == (uint16_t)(o | y << 12)); sym_reach("new"); }
extern "C" void c17_new() { fresh<tls_info> t; Z(t->get_raw_data_start_rva()); Z(t->get_raw_data_end_rva()); Z(t->get_index_rva()); Z(t->get_callbacks_rva()); Z(t->get_size_of_zero_fill()); Z(t->get_characteristics()); T_(t->get_raw_data().empty() && t->get_tls_callbacks().empty()); sym_reach("new"); }
extern "C" void c18_new() { fresh<image_config_info> c; Z(c->get_time_stamp()); Z(c->get_major_version()); Z(c->get_minor_version()); Z(c->get_global_flags_clear()); Z(c->get_global_flags_set()); Z(c->get_critical_section_default_timeout()); Z(c->get_decommit_free_block_threshold()); Z(c->get_decommit_total_free_threshold()); Z(c->get_lock_prefix_table_va()); Z(c->get_max_allocation_size()); Z(c->get_virtual_memory_threshold()); Z(c->get_process_affinity_mask()); Z(c->get_process_heap_flags()); Z(c->get_service_pack_version()); Z(c->get_edit_list_va()); Z(c->get_security_cookie_va()); Z(c->get_se_handler_table_va()); Z(c->get_se_handler_count()); T_(c->get_se_handler_rvas().empty() && c->get_lock_prefix_rvas().empty()); sym_reach("new"); }
extern "C" void c19_new() { fresh<bound_import> b; Z(b->get_timestamp()); T_(b->get_module_name().empty()); Z(b->get_module_ref_count()); T_(b->get_module_ref_list().empty()); fresh<bound_import_ref> r; Z(r->get_timestamp()); T_(r->get_module_name().empty());
  uint32_t t = sym_u32("stamp"); bound_import a("ab", t); bound_import_ref c("cd", t); T_(a.get_timestamp() == t && a.get_module_name() == "ab" && a.get_module_ref_count() == 0); T_(c.get_timestamp() == t && c.get_module_name() == "cd"); sym_reach("new"); }
extern "C" void c20_new() { fresh<resource_directory> d; Z(d->get_characteristics()); Z(d->get_timestamp()); Z(d->get_major_version()); Z(d->get_minor_version()); Z(d->get_number_of_named_entries()); Z(d->get_number_of_id_entries()); T_(d->get_entry_list().empty());
  fresh<resource_directory_entry> e; Z(e->get_id()); T_(!e->is_named() && e->get_name().empty() && !e->includes_data()); fresh<resource_data_entry> x; Z(x->get_codepage()); T_(x->get_data().empty()); uint32_t cp = sym_u32("codepage"); resource_data_entry y("ab", cp); T_(y.get_codepage() == cp && y.get_data() == "ab");
  // asking an entry for what it does not hold
  for (int k = 0; k < 3; k++) { resource_directory_entry n; if (k == 1) n.add_data_entry(y); if (k == 2) n.add_resource_directory(resource_directory()); bool t = false; try { n.get_data_entry(); } catch (const pe_exception&) { t = true; } T_(t == (k != 1)); t = false; try { n.get_resource_directory(); } catch (const pe_exception&) { t = true; } T_(t == (k != 2)); } sym_reach("new"); }
extern "C" void c24_new() { fresh<file_version_info> i; Z(i->get_file_flags()); Z(i->get_file_version_ms()); Z(i->get_file_version_ls()); Z(i->get_product_version_ms()); Z(i->get_product_version_ls()); Z(i->get_file_os_raw()); Z(i->get_file_type_raw()); Z(i->get_file_subtype()); Z(i->get_file_date_ms()); Z(i->get_file_date_ls()); T_(!i->is_debug() && !i->is_prerelease() && !i->is_patched() && !i->is_private_build() && !i->is_special_build() && !i->is_info_inferred()); sym_reach("new"); }
extern "C" void c27_new() { fresh<section> s; T_(s->get_name().empty() && s->get_raw_data().empty() && s->empty()); Z(s->get_characteristics()); Z(s->get_virtual_address()); Z(s->get_virtual_size()); Z(s->get_size_of_raw_data()); Z(s->get_pointer_to_raw_data()); sym_reach("new"); }
