#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept in python so that it stays readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": ["src/pe_lib/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Opening an arbitrary byte stream is memory safe and always answers",
 "Opening any byte sequence as a PE image, or asking for its type, either yields an image object or throws a library exception. "
 "It never reads or writes memory outside the objects it owns, never divides by zero, and always terminates.",
 ["inputs"], "every content of the DOS/PE headers, section table and overlay bytes, PE32 and PE32+",
 "The tests open a couple of dozen well-formed sample files; hostile header combinations are unbounded in number.",
 ["pe_base.cpp", "pe_factory.cpp", "pe_rich_data.cpp"],
 [("header and section table reading", "pe_base::read_pe / read_dos_header / read_pe_header"), ("type detection", "pe_base::get_pe_type")],
 ["pe_factory::create_pe", "pe_base constructors"])

prop("C02", "Reading import, export, relocation, TLS and load-config data is memory safe",
 "For an image whose directory entry and section bytes are arbitrary, reading the import, export, base relocation, TLS and load configuration directories "
 "either returns decoded data or throws a library exception. No read leaves the section's stored bytes and every reader terminates.",
 ["inputs"], "every directory RVA/size and every content of the section bytes, PE32 and PE32+",
 "Tests read the directories of benign samples only; no test truncates or corrupts a table.",
 ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_base.cpp"],
 [("length-checked section data access", "pe_base::section_data_from_rva"), ("null-termination checks", "pe_utils::is_null_terminated")])

prop("C03", "Reading debug, exception, bound-import, .NET and rich data is memory safe",
 "For an image whose directory entry, section bytes, DOS stub and header bytes are arbitrary, reading the debug, exception, bound import and .NET directories and the rich data "
 "either returns decoded data or throws a library exception. No read leaves the bytes of the image and every reader terminates.",
 ["inputs"], "every directory RVA/size, every content of the section, header and stub bytes, PE32 and PE32+",
 "Tests read these directories of benign samples only; no test truncates or corrupts a table.",
 ["pe_debug.cpp", "pe_exception_directory.cpp", "pe_bound_import.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp"],
 [("length-checked section data access", "pe_base::section_data_from_rva"), ("rich header scan", "get_rich_data")])

prop("C04", "Reading the resource tree and decoding resources is memory safe",
 "For arbitrary resource section bytes, reading the resource tree either returns it or throws a library exception, also when it contains cycles. "
 "Decoding any resource blob as a string table, message table, version information, icon, cursor or bitmap likewise returns data or throws, and never reads outside the blob.",
 ["inputs"], "every content of the resource section and of every resource blob within the bounds",
 "Tests decode resources of benign samples only; no test truncates or corrupts a resource.",
 ["pe_resources.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "resource_version_info_reader.cpp",
  "resource_cursor_icon_reader.cpp", "resource_bitmap_reader.cpp"],
 [("tree walk with cycle detection", "process_resource_directory"), ("per-format length checks", "*_reader classes")])

prop("C05", "Images are accepted exactly when their headers satisfy the loader rules",
 "Opening a byte stream succeeds if and only if the DOS and PE signatures, the optional header magic, section count, section and file alignments, header sizes and "
 "every section's virtual and raw extents satisfy the library's loader-compatible validity rules (power-of-two alignments, section alignment not below file alignment, "
 "sections ordered and contained in the declared image, raw data inside the file). A stream that violates a rule is rejected with a library exception and none that satisfies them all is refused.",
 ["inputs"], "every value of every header field, for stream sizes and section counts within the bounds",
 "The tests contain only images that must be accepted plus a handful of broken ones.",
 ["pe_base.cpp", "pe_factory.cpp", "pe_properties_generic.cpp"],
 [("header validation", "pe_base::read_pe_header"), ("section validation", "pe_base::read_pe")])

prop("C06", "An opened image reports exactly what the file contains",
 "After a successful open, every header field accessor, section attribute, section raw byte, DOS stub byte, file-overlay flag and the image type equal the values stored in the file, "
 "and the stored section data is exactly the file bytes of that section's raw extent.",
 ["inputs"], "every header value, section table and content of a valid image within the bounds, PE32 and PE32+",
 "Tests compare a few constants for fixed sample files.",
 ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp", "pe_factory.cpp"],
 [("reading", "pe_base::read_pe"), ("accessors", "pe_properties_generic getters")])

prop("C07", "Rebuilding an image and reopening it preserves the image",
 "Writing an image with the rebuilder and opening the result yields the same headers, sections, section bytes, DOS stub and data directories, "
 "whether or not the DOS header is stripped (in which case only the stub may be lost). The file layout written is consistent: every section's bytes lie at its recorded, aligned file position, in order, without overlap.",
 ["inputs", "configurations"], "every image content within the bounds, PE32/PE32+, every rebuild option combination",
 "Tests rebuild fixed samples and look at a few fields.",
 ["pe_rebuilder.cpp", "pe_base.cpp"],
 [("writer", "rebuild_pe / rebuild_pe_headers"), ("layout", "pe_base::prepare_section, set_file_alignment")])

prop("C08", "Addresses convert consistently between RVA, VA and file offset",
 "Converting an RVA to a VA and back is the identity, and a conversion whose result does not fit the address width or lies below the image base is rejected with an exception, never wrapped. "
 "An RVA backed by file data converts to the file offset holding that very byte and back; addresses or offsets that belong to no section and not to the headers are rejected.",
 ["inputs"], "every 32/64-bit address and image base, every section placement within the bounds",
 "Tests convert a few fixed addresses of fixed samples.",
 ["pe_base.cpp", "pe_properties_generic.cpp"],
 [("rva/va conversion", "pe_properties_generic rva_to_va/va_to_rva"), ("file offset conversion", "pe_base::rva_to_file_offset, file_offset_to_rva")])

prop("C09", "Section lookup and section data access are exact",
 "Looking up a section by RVA, VA, directory or file offset returns the section whose aligned extent contains the address and throws when none does. "
 "Reported available-data lengths equal the bytes between the address and the end of the section's raw or virtual data, and typed access succeeds exactly when the requested bytes lie inside and then returns those very bytes. Raw (pointer) access is refused outside every section and designates the very byte of the address when it is stored.",
 ["inputs"], "every address, every section geometry (virtual size, raw size, alignment) within the bounds",
 "Tests query a few addresses in one layout.",
 ["pe_base.cpp", "pe_base.h", "pe_section.cpp"],
 [("lookup", "pe_base::section_from_rva / section_from_directory / section_from_file_offset"), ("lengths", "pe_base::section_data_length_from_rva"), ("access", "pe_base::section_data_from_rva")])

prop("C10", "Header field accessors round-trip and are independent",
 "Setting any header property of a 32- or 64-bit image and reading it back gives the value set (truncated only to the field's documented width), and no other property, directory or section changes. "
 "Setting, clearing and testing characteristic flags, and setting or removing one data directory, affect exactly the named flags or directory (removing the relocation or export directory also adjusts the characteristics that say so); access to a directory index outside the image's directory count is rejected. A newly created image is empty and has the type, section alignment, DLL flag and subsystem asked for.",
 ["inputs", "histories"], "every field value and every directory index, from an arbitrary header state, PE32 and PE32+",
 "Tests set one constant per property and read only that property back.",
 ["pe_properties_generic.cpp", "pe_base.cpp"],
 [("accessors", "pe_properties_generic<PEClassType>"), ("directories", "directory_exists, remove_directory, strip_data_directories")])

prop("C11", "Section layout operations preserve a loadable image layout",
 "Adding a section, changing the last section's virtual size, growing a section, realigning the file and recalculating section sizes leave an image whose sections start at section-aligned, non-overlapping, contiguous virtual addresses "
 "after the headers, and whose declared size covers exactly the headers and all sections. Existing sections keep their addresses and data unless the operation is asked to change them, and invalid alignments, sizes or sections are refused with an exception.",
 ["inputs", "histories"], "every section size, virtual size and alignment, starting from an arbitrary valid layout, one operation at a time and short sequences",
 "Tests add a few fixed sections to empty or sample images.",
 ["pe_base.cpp", "pe_section.cpp", "pe_properties_generic.cpp"],
 [("layout", "pe_base::add_section, prepare_section, set_section_virtual_size, expand_section, realign_file, recalculate_section_sizes, update_image_size")])

prop("C12", "Alignment and arithmetic helpers are exact",
 "Aligning up or down to a power of two gives the nearest multiple in that direction, the power-of-two test is exact, the overflow-safe addition test is true exactly when the sum does not wrap, "
 "and the null-termination test is true exactly when a terminator lies inside the given length.",
 ["inputs"], "all 32-bit operands and all power-of-two alignments",
 "Tests check a handful of operand values.",
 ["utils.cpp", "utils.h"], [("helpers", "pe_utils")])

prop("C13", "The computed checksum is the PE checksum",
 "The checksum calculated over a stream equals the reference PE algorithm: the 16-bit end-around-carry sum of the file with the stored checksum field excluded, plus the file length. "
 "It therefore does not depend on the stored checksum, detects any other changed 16-bit word, and is computed for every file length.",
 ["inputs"], "every file content and length within the bounds",
 "Tests compare the sum for fixed samples.",
 ["pe_checksum.cpp"], [("algorithm", "calculate_checksum")])

prop("C14", "Import tables round-trip through rebuilding",
 "Rebuilding a list of imported libraries with any option combination and reading the directory back gives the same libraries in order, with the same names, timestamps, function names, hints and ordinals, by-name or by-ordinal, "
 "and usable lookup and address tables for 32- and 64-bit images. The rebuilt tables lie inside the given section at or after the requested offset and leave bytes before it untouched; a region that is too small is grown or refused. New import descriptions are empty.",
 ["inputs", "configurations"], "every library/function list within the bounds, every rebuild option, PE32 and PE32+",
 "Tests rebuild one fixed list per class with a few options.",
 ["pe_imports.cpp"], [("writer", "rebuild_imports_base"), ("reader", "get_imported_functions_base")])

prop("C15", "Export tables round-trip through rebuilding",
 "Rebuilding an export list and reading it back gives the same library name, timestamp, and functions with the same ordinals, addresses, names and forwarders; written names are sorted so that a binary search finds each. "
 "Lists with a duplicate name or ordinal are refused, and ordinal limits and existence queries agree with the list. New export descriptions are empty.",
 ["inputs", "configurations"], "every export list within the bounds, including gaps between ordinals and forwarders",
 "Tests rebuild one fixed list.",
 ["pe_exports.cpp"], [("writer", "rebuild_exports"), ("reader", "get_exported_functions"), ("queries", "get_export_ordinal_limits, exported_name_exists, exported_ordinal_exists")])

prop("C16", "Relocations round-trip and rebasing adjusts exactly the relocated fields",
 "Rebuilding relocation tables and reading them back gives the same pages and entries (absolute padding aside), with every block four-byte aligned. "
 "Rebasing adds the difference of image bases to each relocated field and changes no other byte, and rebasing back restores the image. An entry made from a 16-bit item or from an offset and type shows both forms.",
 ["inputs"], "every table content within the bounds, every pair of image bases, PE32 and PE32+",
 "Tests rebase one sample to one base.",
 ["pe_relocations.cpp"], [("writer", "rebuild_relocations"), ("reader", "get_relocations"), ("rebase", "rebase_image_base")])

prop("C17", "TLS directories round-trip through rebuilding",
 "Rebuilding TLS information and reading it back gives the same addresses, zero-fill size, characteristics, raw data and callback list, for 32- and 64-bit images and every combination of write options. "
 "Raw data and callbacks are written at the addresses the information names, and only there. A new TLS description is empty.",
 ["inputs", "configurations"], "every TLS description within the bounds, every write option, PE32 and PE32+",
 "Tests rebuild one fixed description.",
 ["pe_tls.cpp"], [("writer", "rebuild_tls_base"), ("reader", "get_tls_info_base")])

prop("C18", "Load configuration directories round-trip through rebuilding",
 "Rebuilding a load configuration and reading it back gives the same field values, safe exception handler list and lock prefix list, for 32- and 64-bit images and every combination of write options. A new description is all zero.",
 ["inputs", "configurations"], "every field value and table content within the bounds, every write option, PE32 and PE32+",
 "Tests rebuild one fixed description.",
 ["pe_load_config.cpp"], [("writer", "rebuild_image_config_base"), ("reader", "get_image_config_base")])

prop("C19", "Bound import tables are decoded exactly and round-trip through rebuilding",
 "Reading the bound import directory returns, in order, exactly the modules encoded in it with their timestamps, names and forwarder references, whether the table is in a section or in the headers, and a malformed table is refused with an exception. Rebuilding a list of bound modules and reading it back gives the same list, with every write option; a list that does not fit its section or the format's 16-bit name offsets is refused.",
 ["inputs", "configurations"], "every table content and placement within the bounds; every list and write option",
 "Tests read one sample's table.",
 ["pe_bound_import.cpp"], [("reader", "get_bound_import_module_list"), ("writer", "rebuild_bound_imports")])

prop("C20", "Resource trees round-trip through rebuilding",
 "Rebuilding a resource tree and reading it back gives the same tree: the same directories, named and numbered entries, data bytes, code pages and header fields. "
 "Entries come out in the order the format requires (names first, sorted, then ids ascending), data blocks are aligned and do not overlap, and bytes before the requested offset are untouched. Assigning a resource entry, even to itself or from its own subtree, gives an equal tree. New directories and entries are empty, and an entry asked for what it does not hold throws.",
 ["inputs", "configurations"], "every tree shape, id, name and data within the bounds, every rebuild option",
 "Tests rebuild one sample's tree.",
 ["pe_resources.cpp"], [("writer", "rebuild_resources"), ("reader", "get_resources")])

prop("C21", "Resource manager and viewer act as a keyed store of resources",
 "Adding, replacing, and removing resources by type, name or id, and language through the manager, then listing, counting, testing or fetching them through the viewer, behaves as a map from (type, name or id, language) to data: "
 "the affected entry changes as requested and every other entry keeps its data. Requests for absent entries are reported by exception or false return. The data to store may itself come from the edited tree.",
 ["inputs", "histories"], "every sequence of operations within the bounds, with arbitrary types, ids, names, languages and data",
 "Tests run one fixed sequence.",
 ["pe_resource_manager.cpp", "pe_resource_viewer.cpp"], [("editing", "pe_resource_manager"), ("queries", "pe_resource_viewer")])

prop("C22", "Icon and cursor resources round-trip",
 "Writing an icon or cursor file into the resources and reading it back by name or id and language returns the same file contents (images one after another, in order; a cursor's color count, which the format does not store, aside), for every placement and numbering mode. Files whose tables point outside them, and images that find no free id up to 65535, are refused. "
 "Other icons and cursors already stored keep their images, no two images share an id, and removal deletes exactly the named group and its images.",
 ["inputs", "histories"], "every icon/cursor directory and image content within the bounds, every id-allocation mode",
 "Tests write one fixed icon and cursor.",
 ["resource_cursor_icon_writer.cpp", "resource_cursor_icon_reader.cpp"], [("writer", "resource_cursor_icon_writer"), ("reader", "resource_cursor_icon_reader")])

prop("C23", "String and message tables are decoded exactly",
 "Decoding a string table resource returns exactly the non-empty strings encoded in it under the ids the format assigns, and decoding a message table returns exactly the encoded messages, ANSI or Unicode, under their ids. "
 "A single string looked up by id equals the one in the decoded table, and malformed tables are refused with an exception.",
 ["inputs"], "every table content within the bounds",
 "Tests read one sample's tables.",
 ["resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "message_table.cpp"],
 [("reader", "resource_string_table_reader"), ("reader", "resource_message_list_reader")])

prop("C24", "Version information round-trips",
 "Writing version information (fixed file info, string tables, translations) as a resource and reading it back gives the same file info, string values and translations. The version strings reported show the four 16-bit numbers, and a new description is all zero. "
 "Every header length and alignment in the written block is consistent; information too long for the format's 16-bit lengths, or with characters it cannot represent, is refused by exception and changes nothing. Damaged blocks are refused or read within their bounds, and reading always terminates.",
 ["inputs"], "every fixed file info value, key, string and translation within the bounds",
 "Tests write one fixed block.",
 ["resource_version_info_writer.cpp", "resource_version_info_reader.cpp", "file_version_info.cpp"],
 [("writer", "resource_version_info_writer"), ("reader", "resource_version_info_reader")])

prop("C25", "Bitmap resources round-trip",
 "Storing a bitmap file as a resource and reading it back yields a bitmap file with the same pixel data and a correct file header (signature, total size, and pixel offset that accounts for the info header size, the colour masks and the palette). Data shorter than a bitmap's headers is refused with an exception, when stored and when read.",
 ["inputs"], "every bitmap header and data within the bounds",
 "Tests store one fixed bitmap.",
 ["resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp"], [("writer", "resource_bitmap_writer"), ("reader", "resource_bitmap_reader")])

prop("C26", "Debug, exception, .NET and rich-header data are decoded exactly",
 "The debug entries (with their PDB 2.0/7.0, miscellaneous and symbol information), exception table entries, .NET header and rich header records reported for an image are exactly those encoded in it, in order.",
 ["inputs"], "every table content within the bounds, PE32 and PE32+",
 "Tests compare constants for fixed samples.",
 ["pe_debug.cpp", "pe_exception_directory.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp"],
 [("reader", "get_debug_information"), ("reader", "get_exception_directory_data"), ("reader", "get_basic_dotnet_info"), ("reader", "get_rich_data")])

prop("C27", "Section objects keep name, flags and data consistent",
 "A section's name (up to eight characters), characteristic flags, sizes and addresses read back as set, and each flag change affects only that flag. "
 "Mapping a section's data to its virtual size and back preserves the raw contents up to trailing zero padding, and aligned raw and virtual sizes follow the documented rule. A new section is empty.",
 ["inputs", "histories"], "every name, flag word, data content, size and alignment within the bounds",
 "Tests use one fixed section.",
 ["pe_section.cpp"], [("section object", "section")])

prop("C28", "Copied images are independent of their source",
 "Copying or assigning an image object gives an image equal to the source in every header, section and directory, and later changes to either one never show in the other. Assignment replaces every previous property of the target.",
 ["inputs", "histories"], "every image state within the bounds followed by any modelled mutation, PE32 and PE32+",
 "Tests copy one fixed image and compare a few fields.",
 ["pe_base.cpp", "pe_properties_generic.cpp"], [("copy", "pe_base copy constructor and assignment"), ("duplicate", "pe_properties::duplicate")])

prop("C29", "Wide and UCS-2 text conversion is lossless",
 "Converting any string of representable characters to the UCS-2 form used in resources and back returns the same string, and the UCS-2 form is the little-endian two-byte encoding of each character. Characters that cannot be represented are reported by exception, never silently altered.",
 ["inputs"], "every string of characters up to the length bound",
 "Tests convert one fixed string.",
 ["utils.cpp"], [("conversion", "pe_utils::to_ucs2 / from_ucs2")])

prop("C30", "Reading from a stream leaves the caller's stream as it was",
 "Opening an image, detecting its type, and computing a checksum or entropy leave the caller's stream with the position documented for the operation, its previous exception mask, and no sticky error of the library's own making, on success and on failure alike.",
 ["inputs"], "every stream content and length within the bounds, every prior exception mask and position",
 "Tests never inspect the stream after a failure.",
 ["pe_base.cpp", "pe_checksum.cpp", "entropy.cpp"], [("state guards", "pe_base constructor, get_pe_type, calculate_checksum, calculate_entropy")])

prop("C31", "The version information editor changes exactly what it is asked to",
 "Setting a version property or adding or removing a translation through the editor makes the viewer report exactly that change: the property value under the requested translation, the list of translations and string tables in agreement, all other properties unchanged. "
 "Removing a translation removes every string table and translation entry denoting it, in any spelling and however often repeated. Properties or translations that do not exist are reported by exception or an empty value, as documented.",
 ["inputs", "histories"], "every sequence of editor operations within the bounds with arbitrary language/code page ids and strings",
 "Tests edit one fixed block.",
 ["version_info_editor.cpp", "version_info_viewer.cpp"], [("editing", "version_info_editor"), ("queries", "version_info_viewer")])

prop("C32", "Entropy equals the Shannon entropy of the data",
 "The entropy reported for a section, buffer, stream (from its current position) or image (all section data) is the Shannon entropy of the corresponding bytes, between 0 and 8. An empty buffer, section or stream is refused with an exception.",
 ["inputs"], "every byte content and length",
 "Tests compare the entropy of fixed samples within a tolerance.",
 ["entropy.cpp"], [("algorithm", "entropy_calculator")])

prop("C33", "Import and export directories of any image are decoded exactly",
 "Reading the import directory of an image some other tool produced gives exactly its libraries in order up to the first descriptor without a name, each with its name, timestamp and table addresses, and exactly its functions up to the first null thunk: by-name functions with hint and name, by-ordinal functions with the ordinal, "
 "each with the value of its address table entry; the lookup table is used where there is one and the address table otherwise. Reading the export directory gives every non-empty slot with ordinal, address, name (where a name table names it) and forwarder (where the address lies among the directory's data), and the directory's own fields. "
 "This holds wherever in sections or headers the tables lie and in whatever order. Names, thunks and tables that leave the image, name strings that run out of it and ordinals above 65535 are refused with an exception; an image without the directory has no imports or exports.",
 ["inputs", "configurations"], "every field, thunk, ordinal and name, every arrangement of the tables within the bounds, PE32 and PE32+",
 "Tests read the directories of a few linked samples and of tables the library wrote itself.",
 ["pe_imports.cpp", "pe_exports.cpp"], [("imports", "get_imported_functions_base"), ("exports", "get_exported_functions")])

prop("C34", "Relocation, TLS and load configuration directories are decoded exactly",
 "Reading these directories of an image some other tool produced gives exactly what is stored: every relocation block of the directory with its page address and every entry's offset and type (absolute entries only on request); the TLS directory's addresses, sizes, raw data bytes (zeros where the section continues past its data) and all callbacks up to the null; "
 "every load configuration field, as many handlers as counted, and all lock prefixes up to the null. This holds wherever the tables lie. Tables that leave the image, relocation blocks of odd size, reversed TLS data, load configurations that state a smaller size and missing TLS or load configuration directories are refused with an exception.",
 ["inputs", "configurations"], "every field, entry and table content, every arrangement of the tables within the bounds, PE32 and PE32+",
 "Tests read the directories of a few linked samples and of tables the library wrote itself.",
 ["pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp"], [("relocations", "get_relocations"), ("TLS", "get_tls_info_base"), ("load configuration", "get_image_config_base")])

prop("C35", "Resource trees of any image are decoded exactly",
 "Reading the resource directory of an image some other tool produced gives exactly its tree: every directory with its header fields, every entry in the stored order, named or numbered as stored with exactly that name or number, leading to a subdirectory or to data with exactly the bytes and code page stored. Names, data entries and data may be shared, lie in any order and place, "
 "and data may lie in another section or run on into a section's zeros. Directories, names, entries or data that leave the image and directories that contain themselves are refused with an exception; an image without resources has an empty tree.",
 ["inputs", "configurations"], "every header field, number, name and data content, every arrangement of the parts within the bounds",
 "Tests read the trees of a few linked samples and of trees the library wrote itself.",
 ["pe_resources.cpp"], [("reader", "process_resource_directory"), ("entry point", "get_resources")])

prop("C36", "Version information blocks of any compiler are decoded exactly",
 "Reading a version resource some other tool produced gives exactly its fixed fields (zeros when it has none), every string table with every string's name and value (without NULs stored behind it), and every translation, in whatever order the blocks come, whatever their padding contains and whether or not it is counted in lengths. "
 "It is found by language, by index or as the first. Data with another root name, signature or structure version, unknown child blocks or too few bytes is refused with an exception.",
 ["inputs", "configurations"], "every field, text, padding and block order within the bounds",
 "Tests read the version information of a few samples and of blocks the library wrote itself.",
 ["resource_version_info_reader.cpp", "file_version_info.cpp"], [("reader", "resource_version_info_reader::get_version_info")])

prop("C37", "Icon and cursor groups of any image are read as the files they describe",
 "Reading an icon or cursor group some other tool stored, by name or id, language or index, gives a file that describes exactly the listed images in the listed order, each with the fields of its record (and a cursor's hotspot) and its own bytes at the recorded position, whichever ids the images have, also if listed twice. "
 "Images come from the group's language; asked by index, from the index in the image's languages where they have none in it. A single icon or cursor is a file of that image with the record of a group that lists it in the same language. Languages, images and groups that do not exist are refused with an exception.",
 ["inputs", "configurations"], "every id, record field, language, list of images and image content within the bounds",
 "Tests read groups the library wrote itself and those of a few samples.",
 ["resource_cursor_icon_reader.cpp", "pe_resource_viewer.cpp"], [("group reader", "format_icon_headers"), ("single images", "lookup_icon_group_data_by_icon")])

prop("C38", "Directories given to one image one after another are all in the file written",
 "Giving an image several of imports, exports, relocations, TLS, load configuration, bound imports and resources, in any order, leaves each as it was given: each is read back as given, right away and from the file rebuild_pe writes and create_pe opens, and directories never given stay absent. "
 "It does not matter whether they are in sections of their own, one behind another in the last section, or in free places of a section that holds other data, whose other bytes are kept. Realigning the file, adding or enlarging sections, adding stub data, reopening, replacing a directory and removing another do not change the others. The section layout stays loadable and rebuild_pe does not refuse the image.",
 ["inputs", "histories", "configurations"], "every order, placement and content of the directories within the bounds",
 "Tests rebuild one directory at a time in a sample image and read it at once.",
 ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_resources.cpp", "pe_rebuilder.cpp", "pe_base.cpp"], [("directory builders", "rebuild_imports"), ("writer", "rebuild_pe"), ("section sizes", "recalculate_section_sizes")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
