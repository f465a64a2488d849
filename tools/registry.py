# What each check runs: (harness source, entry, seconds[, engine options]).
STUBS = [
 "encoding: LLVM IR of /repo/src/pe_lib compiled by clang -O1 at check time, executed symbolically; container, string and stream code of libstdc++ is encoded from its headers",
 "models in runtime/runtime.cpp stand in for malloc/free/new/delete (fresh, never failing below 1 GB), memcpy/memmove/memset/memcmp/strlen, iostream locale and buffer non-inline parts and iconv (UTF-8/UCS-2 conversion)",
 "every candidate is replayed natively (clang++, AddressSanitizer) on the same inputs before it is reported"]
CHECKS = {}
def check(id, src, quick, thorough=(), bounds="", assumptions=(), **kw):
    def norm(l): return [(e if e[0].endswith(".cpp") else (src,) + tuple(e)) for e in l]
    CHECKS[id] = dict(src=src, quick=norm(quick), thorough=norm(thorough), bounds=bounds, assumptions=list(assumptions), **kw)

check("C05", "c05_accept.cpp",
  [("c05_headers32", 40), ("c05_headers64", 40), ("c05_lfanew", 15), ("c05_trunc", 10), ("c05_section32", 20), ("c05_section64", 20), ("c05_sectionmore", 25), ("c05_hdrbytes", 10), ("c05_sectionmem", 10), ("c05_two", 40), ("c05_twomem", 20), ("c05_count", 10)],
  [("c05_three", 80)],
  bounds="files up to 0x600 bytes, e_lfanew any 32-bit value, all header words the acceptance rules read symbolic (one group per entry), up to 2 sections (3 thorough) with every 32-bit VirtualAddress/VirtualSize/SizeOfRawData/PointerToRawData near the boundaries of the file")
check("C12", "c12_utils.cpp",
  [("c12_align", 20), ("c12_align64", 20), ("c12_pow2", 10), ("c12_sum", 10), ("c12_nullterm", 10), ("c12_strip", 10)],
  bounds="all 32-bit and 64-bit operands, all 32 power-of-two alignments; buffers of up to 8 bytes for null termination, strings of up to 6 bytes for stripping")
check("C08", "c08_addr.cpp",
  [("c08_va32_pe32", 5), ("c08_va32_pe64", 5), ("c08_va64_pe32", 5), ("c08_va64_pe64", 5), ("c08_rva_pe32", 5), ("c08_rva_pe64", 5), ("c08_secoff", 5), ("c08_rvaoff1", 20), ("c08_offrva1", 40), ("c08_rvaoff2", 35), ("c08_offrva2", 35)],
  [("c08_rvaoff3", 80), ("c08_offrva3", 80)],
  bounds="every 32/64-bit address and image base; one section with every 32-bit geometry, two sections (three thorough) with 20-bit geometry, header sizes up to 0x1000")
check("C09", "c09_access.cpp",
  [("c09_lookup1", 10), ("c09_lookup2", 15), ("c09_lookup3", 35), ("c09_lookupva32", 10), ("c09_lookupva64", 10), ("c09_lookupdir", 15), ("c09_len_total", 15), ("c09_len_section", 15), ("c09_len_remaining", 15), ("c09_len_va32", 15), ("c09_len_va64", 15),
   ("c09_typed32", 10), ("c09_typed8", 10), ("c09_typed3", 10), ("c09_typed64", 10), ("c09_raw", 10), ("c09_headers", 10), ("c09_headerforms", 5)], [],
  bounds="lookup: every 32-bit address and one section of every 32-bit geometry, two or three sections of 24-bit geometry; access: section data of up to 16 bytes with arbitrary content, every 32-bit address, element sizes 1, 3, 4 and 8; header access at header sizes 0x1f8 and 0x200, every form with one or two relative or virtual addresses")
check("C10", "c10_headers.cpp",
  [("c10_%s%s" % (n, b), 15) for n in ("fields", "wide", "misc", "reads", "dirset", "dirget", "dirremove") for b in ("32", "64")] + [("c10_strip", 20)], [],
  bounds="every header byte arbitrary (directory count at most 16), every field value, every 32-bit directory index, PE32 and PE32+")
check("C11", "c11_layout.cpp",
  [("c11_add0_32", 10), ("c11_add0_64", 10), ("c11_add1_32", 35), ("c11_addmax", 5), ("c11_setvs0", 5), ("c11_setvs1", 5), ("c11_setvs2", 10), ("c11_expandraw0", 5), ("c11_expandraw2", 20), ("c11_expandvirt0", 5), ("c11_expandvirt1", 40), ("c11_realign1", 5), ("c11_realign2f", 10), ("c11_realignfile1", 5), ("c11_realignfile2f", 30), ("c11_realignedit1", 5), ("c11_realignedit2", 5), ("c11_recalc1", 5), ("c11_recalc2", 10), ("c11_seq", 40)],
  [("c11_add1_64", 30), ("c11_add2", 40), ("c11_expandraw1", 20), ("c11_expandvirt2", 80), ("c11_realign2", 40), ("c11_realignfile2", 40)],
  bounds="up to 2 existing sections of arbitrary valid geometry (one section: every 32-bit address and virtual size up to 0x80000000; two or growth: 23-bit windows at the bottom and top of the address space), raw data of 0, 5, 0x203 and 0x1003 bytes with symbolic content, section alignments 0x200 and 0x1000, file alignments 0x200..0x2000, sequences of 3 operations; section count limit at 94..96 sections")
check("C27", "c27_section.cpp",
  [("c27_name", 10), ("c27_nameread", 5), ("c27_flags", 5), ("c27_fields", 5), ("c27_sizes", 15), ("c27_seq2", 10), ("c27_seq3", 10), ("c27_seq4", 20)], [],
  bounds="every 40-byte section header, names of up to 10 characters, every 32-bit size and all power-of-two alignments; data operation sequences of up to 4 steps over data of 0, 9 or 18 bytes and virtual sizes 0..33 at alignment 16")
check("C07", "c07_rebuild.cpp",
  [("c07_one32", 15), ("c07_one64", 15), ("c07_two", 10), ("c07_three", 15), ("c07_none", 5), ("c07_ops", 35), ("c07_bound", 10), ("c07_boundlong", 10), ("c07_toolong", 5), ("c07_large", 5)], [],
  bounds="every header field, DOS header and stub byte symbolic; up to 3 sections of 0..0x400 bytes with symbolic content at both ends, data shorter or longer than SizeOfRawData, any stale file pointer; directory counts 0, 2, 16; every rebuild option; images built by up to 3 library operations; stubs and sections of 64 KB and more, 96 sections")
check("C06", "c06_report.cpp",
  [("c06_nosec32", 10), ("c06_nosec64", 10), ("c06_one32", 10), ("c06_one64", 10), ("c06_mem", 10), ("c06_two", 5), ("c06_three", 5), ("c06_large", 5), ("c06_aligns", 5)], [],
  bounds="every header byte symbolic except the layout fields, directory counts 0, 3, 16 and 20, PE header positions 4..128, up to 3 sections with raw sizes 0..0x1010 at aligned and unaligned file positions, virtual sizes 0..0x1800, opened from file or memory layout; stubs and sections of 64 KB and more; every pair of six section and file alignments from 1 to 0x10000")
check("C28", "c28_copy.cpp",
  [("c28_copy32", 10), ("c28_copy64", 10), ("c28_assign32", 10), ("c28_assign64", 10), ("c28_self", 5), ("c28_outlive", 10)], [],
  bounds="images of up to 2 sections opened from a stream with symbolic headers, stub, debug data and section bytes; 17 kinds of mutation with symbolic arguments on either side; assignment over 32- and 64-bit targets; self-assignment")
check("C30", "c30_stream.cpp",
  [("c30_type", 10), ("c30_open", 10), ("c30_checksum", 45), ("c30_sections", 10), ("c30_debug", 10), ("c30_entropy", 5)], [],
  bounds="an image of about 230 bytes cut at every length or with arbitrary magic, signature, e_lfanew, section table or debug directory; initial positions 0, 33, 66; exception masks none, bad, eof, fail, all")
check("C13", "c13_checksum.cpp",
  [("c13_bytes2", 60), ("c13_stored", 5), ("c13_detect", 10), ("c13_refuse", 5), ("c13_wrap", 60), ("c13_long", 10)], [("c13_bytes4", 60)],
  bounds="files of 64..67 and 160..163 bytes, two symbolic bytes (four thorough) at the start, end or an unaligned position among fixed surrounding bytes, arbitrary stored checksum; header positions inside and outside the file; files of 0x7fff to 0x40003 bytes of zeros, ones or a pattern with two arbitrary bytes at the end")
check("C01", "c01_open.cpp",
  [("c01_tiny", 10), ("c01_headers32", 10), ("c01_headers64", 10), ("c01_section32", 10), ("c01_section64", 10), ("c01_sectionmem", 10), ("c01_two", 10), ("c01_tables", 15), ("c01_debug32", 15), ("c01_debug64", 15), ("c01_debughdr", 5)], [],
  bounds="streams of 0..156 arbitrary bytes; every header field symbolic in groups (sizes and positions near the boundaries of the file), section tables of up to 2 sections and up to 97 declared, debug directories at any position with entries pointing anywhere; step budget 30 million instructions per path")
check("C14", "c14_imports.cpp",
  [("c14_last32", 20), ("c14_last64", 20), ("c14_middle32", 20), ("c14_middle64", 10), ("c14_fit", 10), ("c14_placed32", 5), ("c14_placed64", 5), ("c14_saved32", 20), ("c14_saved64", 20), ("c14_large", 5)], [("c14_three", 30)],
  bounds="up to 2 libraries (3 thorough) of up to 2 functions with symbolic names (1 to 4 characters), hints, ordinals, timestamps and bound addresses; every option combination; offsets 0, 5, 0x203 and every offset around the end of a section that cannot grow; saved tables kept or rewritten in place; names of 126 to 4095 characters, 255 to 1030 functions, 255 and 257 libraries")
check("C15", "c15_exports.cpp",
  [("c15_small", 15), ("c15_fit", 40), ("c15_names3", 40), ("c15_kinds3", 15), ("c15_queries", 10), ("c15_near", 5), ("c15_wide", 8), ("c15_large", 10)], [],
  bounds="up to 3 functions with ordinals in a window of 4 to 5 at the bases 0, 1, 0x7ffe, 0xfffa, names and forwarders of 1 to 3 symbolic characters, symbolic addresses outside the directory; offsets 0, 5, 0x103 and positions around the end of a section that cannot grow; queries over lists of up to 3 functions with arbitrary ordinals and names of up to 2 characters; functions situated just before and just behind the directory; lists spanning (nearly) all 65536 ordinals; names and forwarders of 126 to 65535 characters, 255 to 300 functions")
check("C16", "c16_relocs.cpp",
  [("c16_last", 15), ("c16_fit", 10), ("c16_rebase32", 15), ("c16_rebase64", 15), ("c16_large", 10)], [("c16_three", 20)],
  bounds="up to 2 pages (3 thorough) of up to 3 arbitrary 16-bit entries, any page address; offsets 0, 5, 0x1f6, 0x203 and around the end of a section that cannot grow; rebasing: two relocations of type absolute, HIGHLOW or DIR64 at aligned and unaligned positions of two sections with arbitrary contents, any pair of image bases; partially overlapping fields are excluded (their result depends on the order); blocks of 255 to 40001 entries, 255 to 300 pages")
check("C17", "c17_tls.cpp",
  [("c17_fields", 40), ("c17_data", 30), ("c17_data_edge", 10), ("c17_callbacks", 40), ("c17_both", 40), ("c17_large", 5)], [],
  bounds="raw data ranges of up to 4 bytes with strings shorter, equal and longer, up to 3 callbacks, symbolic addresses, contents and image base (address overflow excluded), every write option, data and callbacks at chosen places of the TLS section, another section, behind the stored data and across the end of the last and of a middle section; overlapping ranges and ranges in the headers are excluded; raw data of 255 to 0x10001 bytes and 255 to 300 callbacks with arbitrary first and last elements")
check("C18", "c18_config.cpp",
  [("c18_last", 40), ("c18_fitq", 40), ("c18_zerosq", 40), ("c18_tables", 15), ("c18_old", 10), ("c18_large", 5)], [("c18_fit", 150), ("c18_zeros", 120)],
  bounds="symbolic fields, image base and table contents, up to 4 handlers and 3 lock prefixes, every write option, offsets 0, 5, 0x1b1, 0x203 and around the end of a section that cannot grow; any Size field; 255 to 300 handlers or prefixes")
check("C19", "c19_bound.cpp",
  [("c19_section", 20), ("c19_counts", 30), ("c19_headers", 15), ("c19_offsets", 30), ("c19_none", 5), ("c19_rebuild", 15), ("c19_fit", 15), ("c19_large", 10), ("c19_many", 5)], [],
  bounds="48-byte tables at the end of a section or of the headers with up to 4 arbitrary records (symbolic timestamps, name offsets and counts in windows), every name offset for one record; rebuilding up to 2 modules with up to 2 references and names of up to 2 characters at offsets 0, 5, 0x103, 0x1ff and around the end of a section that cannot grow; directories around 64 KB; 255 to 300 modules or references, names of 254 to 1024 characters")
check("C20", "c20_resources.cpp",
  [("c20_flat", 30), ("c20_flat3", 15), ("c20_deepq", 20), ("c20_mixed", 10), ("c20_fit", 15), ("c20_tail", 10), ("c20_refused", 5), ("c20_copies", 10), ("c20_find", 10), ("c20_kinds", 5), ("c20_large", 10)], [("c20_deep", 150)],
  bounds="one directory of up to 3 entries; type/name/language trees of up to 2 branches per level; data of up to 5 symbolic bytes, names of up to 2 symbolic UCS-2 characters, ids below 2^31, symbolic code pages and header fields; distinct keys in each directory; offsets 0, 5, 0x103, 0x1ff and around the end of a section that cannot grow; 255 and 300 entries, names of 127 to 40000 characters, data of 255 to 0x10001 bytes")
check("C21", "c21_manager.cpp",
  [("c21_add", 10), ("c21_deltype", 10), ("c21_delname", 10), ("c21_dellang", 10), ("c21_add3", 20), ("c21_del3", 20), ("c21_history", 10), ("c21_alias", 5), ("c21_large", 10)], [("c21_history4", 100)],
  bounds="one operation (add, remove type, name or language, every key form) on any tree of up to 3 resources with symbolic types below 32, ids, one-character names, languages, code pages and data, then every query with any key; histories of 3 operations (4 thorough) from the empty tree; data of up to 4 bytes; tree keys are distinct; 258 resources of one type, name or language, names of 127 to 300 characters, data of 600 to 80000 bytes")
check("C22", "c22_icons.cpp",
  [("c22_icon", 10), ("c22_cursor", 10), ("c22_fill3", 15), ("c22_second", 5), ("c22_refused", 10), ("c22_groups", 5), ("c22_delany", 5), ("c22_overflow", 5), ("c22_alias", 5), ("c22_addany", 5), ("c22_large", 10), ("c37_icons.cpp", "c37_remove", 10)], [],
  bounds="files of up to 3 images of 1 to 3 symbolic bytes with every header field symbolic, stored one after another, with gaps in reverse order or overlapping; up to 3 other images with arbitrary ids below 2^31; both placement modes; named and numbered groups in any language; appending, other groups, other languages, removal; file tables with arbitrary sizes and offsets; group tables of 0 to 34 arbitrary bytes; cursor records without color count (the group format does not store it); images of 255 to 0x10005 bytes; files of 255 to 257 images; removal of groups some other tool stored (images listed twice, missing, in other languages)")
check("C23", "c23_tables.cpp",
  [("c23_strings", 10), ("c23_lookup", 10), ("c23_anystrings", 5), ("c23_anystrings2", 10), ("c23_longstring", 10), ("c23_block", 10), ("c23_blocks", 5), ("c23_none", 5), ("c23_anyblock", 30), ("c23_entries", 50), ("c23_item", 5), ("c23_large", 5), ("c23_longstrings", 5)], [("c23_anyblock2", 100), ("c23_entries2", 120)],
  bounds="string tables: any table id, two non-empty strings of 1 and 2 characters in any slots, one string of any 16-bit length at any slot, up to 9 arbitrary bytes after 0, 9, 14 or 16 empty strings and 10 to 13 after 10 to 12; message tables: up to 2 blocks and 2 messages of up to 4 bytes of text of both kinds with symbolic flags and ids, arbitrary tables of up to 20 bytes (24 thorough), one arbitrary block with 5 to 7 (9 thorough) arbitrary message bytes; surrogates are refused on this platform and count as malformed; strings of 127 to 65535 characters, messages of 252 to 65531 bytes, 255 to 300 messages or blocks")
check("C24", "c24_version.cpp",
  [("c24_fixed", 10), ("c24_onetable", 10), ("c24_strings", 15), ("c24_tables", 10), ("c24_translations", 10), ("c24_limit", 5), ("c24_unrepresentable", 5), ("c24_flags", 5), ("c24_os", 5), ("c24_damagedstr", 5), ("c24_damagedvar", 5), ("c24_damagedstr2", 10), ("c24_damagedvar2", 10), ("c24_large", 5), ("c24_versionstring", 5)], [],
  bounds="every fixed field symbolic; up to 2 string tables of up to 2 strings with symbolic names (1 to 3 characters) and values (up to 4), up to 3 translations; three shapes with total lengths 65528 to 65540; one arbitrary 32-bit character at any place of a table name, string name or value; damaged blocks: Length or ValueLength of one or two blocks within 16 of zero, of the end of the data or of 65535, with arbitrary texts and the data cut at 9 places (3 for two blocks); names and values of 126 to 16384 characters, 255 to 300 strings, 257 tables, up to 16000 translations")
check("C29", "c29_text.cpp",
  [("c29_wide", 5), ("c29_wide8", 5), ("c29_wide16", 25), ("c29_ucs", 5), ("c29_ucs8", 5), ("c29_long", 5), ("c29_longucs", 5)], [],
  bounds="arbitrary strings of up to 3, 8 and 16 characters (every 32-bit wide character, every 16-bit unit); long strings of 31 to 65537 characters with arbitrary first, middle and last characters; iconv is modelled (its behaviour was compared with glibc's over every code point)")
check("C31", "c31_editor.cpp",
  [("c31_one", 60), ("c31_two", 70), ("c31_ids", 30), ("c31_parse", 10), ("c31_named", 10), ("c31_alias", 5)], [("c31_three", 30)],
  bounds="maps of every combination of up to 3 string tables (two of them naming the same translation in different case) and up to 2 translations with symbolic properties; one operation with arbitrary ids or any hexadecimal digits in two places of the translation name, two operations with four translations (three in the thorough tier, two initial states); one-character property names, values of up to 2 characters")
check("C03", "c03_safe.cpp",
  [("c03_debugdir", 5), ("c03_debugread", 10), ("c03_codeview", 5), ("c03_misc", 12), ("c03_coff", 35), ("c03_coff2", 5), ("c03_coffcount", 10), ("c03_exceptions", 5), ("c03_dotnet", 5), ("c03_bound", 5), ("c03_rich", 5), ("c03_richlong", 20)], [],
  bounds="one section in six geometries (two of them smaller than any structure); directories that just fit or do not fit at every border (zero, end of headers, start, end of data and end of addresses of the section, last address), eight directory sizes, up to 3 arbitrary entries; raw debug data of up to 31 arbitrary bytes (CodeView), 20 (miscellaneous), 54 (COFF; 76 with two symbols) at any border of the file; bound import tables of three records; DOS stubs of up to 13 arbitrary bytes, 20 to 60 with an end mark anywhere")
check("C25", "c25_bitmap.cpp",
  [("c25_trip", 5), ("c25_header", 5), ("c25_short", 5), ("c25_large", 5)], [],
  bounds="info headers of 40, 108 and 124 bytes with every field symbolic, 0 to 256 palette entries, up to 3 bytes of pixels, named and numbered bitmaps in any language next to up to 2 other resources; arbitrary data of 40 to 80 bytes; every length below 54 bytes; pixels of 255 to 0x10001 bytes")
check("C26", "c26_decode.cpp",
  [("c26_entries", 5), ("c26_nodebug", 5), ("c26_pdb", 5), ("c26_codeview", 5), ("c26_misc", 5), ("c26_symbols1", 5), ("c26_symbols2", 5), ("c26_symbols3", 5), ("c26_exceptions", 5), ("c26_badexceptions", 5), ("c26_dotnet", 5), ("c26_rich", 5), ("c26_richtail", 5), ("c26_richlong", 5), ("c26_norich", 5), ("c26_manyentries", 5), ("c26_longtexts", 5), ("c26_manysymbols", 5), ("c26_manyexceptions", 5), ("c26_manyrich", 5)], [],
  bounds="up to 3 debug entries, 3 symbol records with up to 2 auxiliary records, 3 exception entries and 8 rich records, all fields symbolic; PDB names of up to 3 characters, miscellaneous texts of up to 4, symbol names of 1 to 9 and file names of up to 36; tables at the start, inside and at the end of the section and in the headers; 255 to 300 debug entries, symbols, exception entries and rich records; texts of 127 to 0x10001 characters; file names of 255 records; string offsets beyond 64 KB")
check("C02", "c02_safe.cpp",
  [("c02_importdir", 5), ("c02_importname", 5), ("c02_importthunks", 15), ("c02_importfunc", 5), ("c02_exportdir", 15), ("c02_exportparts", 5), ("c02_exportcounts", 5), ("c02_relocdir", 5), ("c02_relocsize", 5), ("c02_rebase", 5), ("c02_tlsdir", 5), ("c02_tlsdata", 5), ("c02_tlscallbacks", 5), ("c02_configdir", 5), ("c02_confightables", 5), ("c02_configptables", 5)], [],
  bounds="one section in six geometries (two of them smaller than any structure); every directory and every table or string it refers to just fits or does not fit at every border (zero, end of headers, start, end of data and end of addresses of the section, last address), arbitrary contents there; six directory sizes; up to 3 libraries, 3 thunks, 2 functions, 2 relocation blocks, 2 callbacks, 2 prefixes; counts at twelve limits; image bases 0, 0x400000 and the highest one; fields of one relocation at every border")
check("C04", "c04_safe.cpp",
  [("c04_root", 5), ("c04_name", 5), ("c04_sub", 5), ("c04_entry", 5), ("c04_data", 5), ("c04_cycle", 5), ("c04_deep", 5), ("c04_group", 5), ("c04_shape", 5), ("c04_strings", 5), ("c04_messages", 10), ("c04_bitmap", 5), ("c24_version.cpp", "c24_damagedstr", 5), ("c24_version.cpp", "c24_damagedvar", 5), ("c24_version.cpp", "c24_damagedstr2", 10), ("c24_version.cpp", "c24_damagedvar2", 10)], [],
  bounds="one section in six geometries (two of them smaller than any structure); root directory, subdirectory, name, data entry and data each at every border (zero, end of headers, start, end of data and end of addresses of the section, last address) with arbitrary contents and counts 0, 1, 2, 0xffff; all graphs of three directories with up to two entries; chains of 3, 255, 256, 257 and 30000 directories; arbitrary groups of 0 to 48 bytes, images of 0 to 5 bytes; trees of every wrong shape of three levels; string tables, message tables, bitmaps and version blocks of up to about 150 bytes cut or with lengths at every limit")
check("C32", "c32_entropy.cpp",
  [("c32_one", 15), ("c32_two", 20), ("c32_long", 15), ("c32_flat", 5), ("c32_position", 10), ("c32_empty", 5), ("c32_headers", 5)], [("c32_twowide", 110)],
  bounds="one arbitrary byte among runs of up to 131072 bytes of one or two other values, two arbitrary bytes (the second of two values; five thorough) alone or around two others, all 256 values once in any rotation; as buffer, section, stream (from positions 0 to 3 behind arbitrary bytes) and image of one or two sections; tolerance 1e-9; the logarithm itself is the C library's, evaluated where the path condition leaves its argument one value")
for _i in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C27"):
    CHECKS[_i]["quick"].append(("new.cpp", _i.lower() + "_new", 5)); CHECKS[_i]["bounds"] += "; new objects over arbitrary old memory"
CHECKS["C10"]["quick"] += [("c10_headers.cpp", "c10_created32", 5), ("c10_headers.cpp", "c10_created64", 5)]; CHECKS["C10"]["bounds"] += "; images created with any alignment and subsystem"
_g = "PE32 and PE32+ images with two sections (one full of data, one continuing with zeros); tables in six arrangements (one after the other, backwards at odd addresses, in turns in both sections, up to the very end of a section, ending in the zeros behind the data, in the headers); "
check("C33", "c33_tables.cpp",
  [("c33_imports", 5), ("c33_imports2", 5), ("c33_manyfuncs", 5), ("c33_manylibs", 13), ("c33_ends", 5), ("c33_damaged", 5), ("c33_exports", 5), ("c33_exports3", 5), ("c33_manyexports", 8), ("c33_badexports", 5), ("c33_none", 5)], [],
  bounds=_g + "up to 2 libraries with up to 2 functions each by name or ordinal, bound or not, with and without lookup tables, up to 3 exports of any kind with up to 2 names and an arbitrary ordinal base, all fields, thunks, ordinals and names (up to 4 characters) symbolic; 255, 256 and 300 libraries, functions and exports; every address of a damaged table outside the image")
check("C34", "c34_tables.cpp",
  [("c34_relocs", 5), ("c34_relocs3", 5), ("c34_manyrelocs", 5), ("c34_manyblocks", 5), ("c34_badrelocs", 5), ("c34_tls", 5), ("c34_manycallbacks", 5), ("c34_badtls", 5), ("c34_config", 5), ("c34_manyconfig", 5), ("c34_badconfig", 5), ("c34_none", 5)], [],
  bounds=_g + "up to 3 relocation blocks with up to 3 symbolic entries, followed by nothing, an empty block or foreign bytes; TLS data of up to 48 bytes (also running on into zeros, empty, or empty at an address outside the image), up to 2 callbacks; every load configuration field symbolic, up to 2 handlers and lock prefixes; 255, 256, 300 (5000 relocation) entries; every address of a damaged table outside the image; load configuration not in the headers; fixed image bases")
check("C35", "c35_tree.cpp",
  [("c35_root", 5), ("c35_three", 5), ("c35_mixed", 8), ("c35_many", 5), ("c35_long", 5), ("c35_bad", 5), ("c35_none", 5)], [],
  bounds=_g + "up to 3 root entries of any kind in any order with shared and own names and data of 0 to 7 symbolic bytes, three levels with named and numbered entries, chains of up to 5 subdirectories with data on every level; every header field, number, code page and name character (no surrogates) symbolic; 255, 256 and 300 entries; names and data of 255 to 12000; every offset of a damaged tree outside the image, a directory within itself")
check("C36", "c36_version.cpp",
  [("c36_parts", 5), ("c36_strings", 8), ("c36_translations", 5), ("c36_many", 5), ("c36_foreign", 5)], [],
  bounds="root blocks with and without fixed information (every field symbolic), up to 3 child blocks in either order, up to 2 string tables with up to 2 strings (names of up to 3, values of up to 3 symbolic characters, no surrogates, ending in 0 to 3 stored NULs), up to 3 translations next to another Var block; block types and padding bytes symbolic, padding counted in lengths or not, bytes behind the root; 255, 256 and 300 strings, tables and translations; every other signature, structure version, root or child name; every cut of a small block's first 92 bytes")
check("C37", "c37_icons.cpp",
  [("c37_order1", 5), ("c37_order2", 5), ("c37_order3", 5), ("c37_langs", 5), ("c37_which", 5), ("c37_large", 5)], [],
  bounds="groups of 0 to 3 images, named and numbered, each record any of 3 stored images (ids symbolic 16-bit), every record field symbolic (cursor sizes up to 256 and 512), images of 0 to 6 symbolic bytes; groups in two languages with images in any of three; 2 and 3 groups in either order of storing; a group of 300 images and an image of 70000 bytes")
check("C38", "c38_session.cpp",
  [("c38_own", 10), ("c38_append", 10), ("c38_last", 10), ("c38_middle", 10), ("c38_again", 10), ("c38_all", 10), ("c38_replace", 10)], [],
  bounds="every ordered choice of three of imports, exports, relocations, TLS, load configuration, bound imports and resources (and all seven in 42 orders), each with symbolic numbers and names of 2 and 3 characters; each in a section of its own, one behind another in a growing section, or in the slots of a section with other data (last or not) in any order; realignment, new and larger sections, a stub overlay and a reopened file in between; a directory replaced in its place or in another, and one removed; PE32 and PE32+, trailing zeros stripped or not, with and without the DOS stub")
