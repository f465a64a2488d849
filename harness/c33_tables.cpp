// C33: import and export directories are decoded exactly, whoever laid them out.
#include "foreign.h"
#include "pe_imports.h"
#include "pe_exports.h"
struct F { bool byname; uint32_t at; uint16_t hint, ordinal; std::string name; uint64_t lookup, iat; };
struct L { uint32_t name_at, lookup_at, iat_at, stamp, chain; std::string name; std::vector<F> f; };
// nl libraries with up to maxf functions; tables: 0 both, the addresses bound; 1 both, equal; 2 only the address table
static void imports(unsigned nl, unsigned maxf, unsigned kinds, unsigned hows, bool choose)
{
    bool pe64 = sym_choose(2, "pe64"); unsigned how = choose ? sym_choose(hows, "arrangement") : 0; Foreign g(pe64); std::vector<L> ls(nl); Sizes n; n.push_back(20 * (nl + 1)); unsigned big = choose ? 0 : 1;
    for (unsigned i = 0; i < nl; i++) { L& l = ls[i]; unsigned k = choose ? sym_choose(maxf + 1, "functions") : (i ? 1 : maxf); l.f.resize(k); l.name = big && i && i + 1 < nl ? "ab" : sym_name(big ? 2 : how == 0 ? 3 * i : 1 + 3 * i, "lib"); n.push_back(l.name.size() + 1); n.push_back(g.w * (k + 1)); n.push_back(g.w * (k + 1)); for (unsigned j = 0; j < k; j++) { F& f = l.f[j]; f.byname = choose ? sym_choose(2, "byname") : (j & 1); if (f.byname) { bool sy = !big || j == 1 || j == 255 || j + 1 == k; f.name = sy ? sym_name(j & 1 ? 4 : 1, "function") : "fn"; n.push_back(f.name.size() + 3); } } }
    Sizes r = arrange(n, how); if (!big && !fits(n, r)) sym_done(); if (big) g.large();
    unsigned b = 1; uint32_t dir = r[0]; std::vector<unsigned> tb(nl);
    for (unsigned i = 0; i < nl; i++) {
        L& l = ls[i]; l.name_at = r[b++]; l.lookup_at = r[b++]; l.iat_at = r[b++]; l.stamp = sym_u32("stamp"); l.chain = sym_u32("chain"); unsigned t = tb[i] = choose ? sym_choose(kinds, "tables") : 0;
        g.u32(dir + 20 * i, t == 2 ? 0 : l.lookup_at); g.u32(dir + 20 * i + 4, l.stamp); g.u32(dir + 20 * i + 8, l.chain); g.u32(dir + 20 * i + 12, l.name_at); g.u32(dir + 20 * i + 16, l.iat_at); g.str(l.name_at, l.name);
        for (unsigned j = 0; j < l.f.size(); j++) {
            F& f = l.f[j]; if (f.byname) { f.at = r[b++]; f.hint = sym_u16("hint"); g.u16(f.at, f.hint); g.str(f.at + 2, f.name); f.lookup = f.at; } else { f.ordinal = sym_u16("ordinal"); f.lookup = g.snap() | ((uint64_t)(pe64 ? sym_u32("unused") : sym_u16("unused") & 0x7fff) << 16) | f.ordinal; }
            bool sy = !big || j < 2 || j + 1 == l.f.size(); f.iat = t ? f.lookup : sy ? (pe64 ? sym_u64("bound") : sym_u32("bound")) : 0x10000 + j; sym_assume(f.iat != 0); if (t != 2) g.ptr(l.lookup_at + g.w * j, f.lookup); g.ptr(l.iat_at + g.w * j, f.iat);
        }
        g.ptr(l.lookup_at + g.w * l.f.size(), 0); g.ptr(l.iat_at + g.w * l.f.size(), 0);
    }
    // the last descriptor has no name
    std::string nul(20, 0); if (choose && how != 4) { symbytes(nul, 0, 12, "last"); symbytes(nul, 16, 4, "last"); } g.at(dir + 20 * nl, nul); g.dir(1, dir, sym_choose(2, "dirsize") ? 20 * (nl + 1) : 1);
    pe_base p = g.open(); imported_functions_list o = get_imported_functions(p); sym_assert(o.size() == nl, "every library up to the last descriptor"); if (o.size() != nl) return;
    for (unsigned i = 0; i < nl; i++) {
        const import_library& x = o[i]; const L& l = ls[i]; sym_assert(eqs(x.get_name(), l.name), "library name"); sym_assert(x.get_timestamp() == l.stamp && x.get_rva_to_iat() == l.iat_at && x.get_rva_to_original_iat() == (tb[i] == 2 ? 0 : l.lookup_at), "fields of the descriptor"); const import_library::imported_list& fs = x.get_imported_functions(); sym_assert(fs.size() == l.f.size(), "every function up to the last thunk"); if (fs.size() != l.f.size()) return;
        for (unsigned j = 0; j < fs.size(); j++) { const F& f = l.f[j]; sym_assert(fs[j].has_name() == f.byname, "by name or by ordinal"); if (fs[j].has_name() != f.byname) return; if (f.byname) sym_assert(eqs(fs[j].get_name(), f.name) && fs[j].get_hint() == f.hint, "name and hint"); else sym_assert(fs[j].get_ordinal() == f.ordinal && fs[j].get_name().empty(), "ordinal"); sym_assert(fs[j].get_iat_va() == f.iat, "contents of the address table"); }
    }
    sym_reach(how == 5 ? "headers" : how == 4 ? "zeros" : "imports");
}
extern "C" void c33_imports() { imports(sym_choose(2, "libraries"), 2, 3, ARRANGE, true); }
extern "C" void c33_imports2() { imports(2, 1, 3, ARRANGE, true); }
extern "C" void c33_manyfuncs() { static const unsigned N[3] = { 255, 256, 300 }; imports(2, N[sym_choose(3, "number")], 1, 1, false); }
extern "C" void c33_manylibs() { static const unsigned N[3] = { 255, 256, 300 }; imports(N[sym_choose(3, "number")], 1, 1, 1, false); }
// the tables of one library end at different places; damaged names and thunks
extern "C" void c33_ends()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); unsigned nl = sym_choose(3, "lookups"), na = sym_choose(3, "addresses"); std::string d(40, 0); put32(d, 0, A0 + 0x100); put32(d, 12, A0 + 0x80); put32(d, 16, A0 + 0x140); g.at(A0, d); g.str(A0 + 0x80, "a"); g.dir(1, A0, 40);
    uint16_t od[2]; uint64_t v[2]; for (unsigned i = 0; i < 2; i++) { od[i] = sym_u16("ordinal"); v[i] = pe64 ? sym_u64("bound") : sym_u32("bound"); sym_assume(v[i] != 0); } for (unsigned i = 0; i < nl; i++) g.ptr(A0 + 0x100 + g.w * i, g.snap() | od[i]); g.ptr(A0 + 0x100 + g.w * nl, 0); for (unsigned i = 0; i < na; i++) g.ptr(A0 + 0x140 + g.w * i, v[i]); g.ptr(A0 + 0x140 + g.w * na, 0);
    pe_base p = g.open(); imported_functions_list o = get_imported_functions(p); unsigned n = nl < na ? nl : na; sym_assert(o.size() == 1 && o[0].get_imported_functions().size() == n, "as many functions as both tables hold"); if (o.size() != 1) return; const import_library::imported_list& fs = o[0].get_imported_functions(); if (fs.size() != n) return; for (unsigned i = 0; i < n; i++) sym_assert(!fs[i].has_name() && fs[i].get_ordinal() == od[i] && fs[i].get_iat_va() == v[i], "function"); sym_reach("ends");
}
extern "C" void c33_damaged()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); std::string d(40, 0); put32(d, 0, A0 + 0x100); put32(d, 12, A0 + 0x80); put32(d, 16, A0 + 0x140); g.str(A0 + 0x80, "a"); g.dir(1, A0, 40); uint64_t t = A0 + 0xc0; g.str(A0 + 0xc0, "xxname"); unsigned how = sym_choose(7, "how"); bool bad = true;
    switch (how)
    {
    case 0: put32(d, 12, A1 - 3); break;                                              // name runs to the end of its section
    case 1: t = A1 - 6; break;
    case 2: { uint64_t x = pe64 ? sym_u64("thunk") : sym_u32("thunk"); sym_assume((x >= B1) & (x < g.snap())); t = x; break; } // thunk outside the image
    case 3: { uint32_t x = sym_u32("name"); sym_assume(x >= B1); put32(d, 12, x); break; }
    case 4: { uint32_t x = sym_u32("lookup"); sym_assume((x >= B1) | ((x >= H1) & (x < A0))); put32(d, 0, x); break; }
    case 5: { uint32_t x = sym_u32("addresses"); sym_assume((x >= B1) | ((x >= H1) & (x < A0))); put32(d, 16, x); break; }
    default: bad = false; break;
    }
    g.at(A0, d); g.ptr(A0 + 0x100, t); g.ptr(A0 + 0x100 + g.w, 0); g.ptr(A0 + 0x140, 0x1234); g.ptr(A0 + 0x140 + g.w, 0); pe_base p = g.open(); bool th = THROWS(get_imported_functions(p)); sym_assert(th == bad, "tables that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
// ---- exports
struct E { unsigned kind; uint32_t rva; };
static const char* FW[3] = { "", "a.b", "library.function" };
static void exports(unsigned nf, unsigned nn, unsigned hows, bool big)
{
    bool pe64 = sym_choose(2, "pe64"); unsigned how = big ? 0 : sym_choose(hows, "arrangement"); Foreign g(pe64); Sizes n; std::vector<std::string> nm(nn); n.push_back(40 + 4 + 17); std::string lib = sym_name(big ? 1 : 1 + 3 * (nn & 1), "lib"); n.push_back(4 * nf); n.push_back(4 * nn); n.push_back(2 * nn); for (unsigned i = 0; i < nn; i++) { nm[i] = big && i && i + 1 < nn && i != 255 ? "fn" : sym_name(i & 1 ? 4 : 1, "name"); n.push_back(nm[i].size() + 1); } n.push_back(lib.size() + 1);
    Sizes r = arrange(n, how); if (!big && !fits(n, r)) sym_done(); if (big) g.large();
    uint32_t dir = r[0], size = n[0], fa = r[1], na = r[2], oa = r[3], ch = sym_u32("flags"), ts = sym_u32("stamp"), bs = sym_u32("base"); uint16_t mj = sym_u16("major"), mi = sym_u16("minor"); g.dir(0, dir, size); if (!nn && sym_choose(2, "notables")) na = oa = 0; if (big) sym_assume((bs == 0) | (bs == 0x10000 - nf) | (bs == 0xfffffff0));
    g.u32(dir, ch); g.u32(dir + 4, ts); g.u16(dir + 8, mj); g.u16(dir + 10, mi); g.u32(dir + 12, r.back()); g.u32(dir + 16, bs); g.u32(dir + 20, nf); g.u32(dir + 24, nn); g.u32(dir + 28, fa); g.u32(dir + 32, na); g.u32(dir + 36, oa); g.str(dir + 40, FW[1]); g.str(dir + 44, FW[2]); g.str(r.back(), lib);
    std::vector<E> e(nf); for (unsigned i = 0; i < nf; i++) { bool sy = !big || i == 255 || i + 1 == nf; e[i].kind = sy ? sym_choose(5, "kind") : 1; uint32_t v = 0; switch (e[i].kind) { case 0: break; case 1: v = sy ? sym_u32("address") : 0x100 + i; sym_assume((v != 0) & ((v < dir) | (v >= dir + size))); break; case 2: v = dir + 40; break; case 3: v = dir + 44; break; case 4: v = dir + size; break; } e[i].rva = v; g.u32(fa + 4 * i, v); }
    std::vector<uint16_t> od(nn); for (unsigned i = 0; i < nn; i++) { od[i] = big && i ? (uint16_t)((i * 17) % nf) : sym_u16("index"); if (big && !i) sym_assume((od[i] == 0) | (od[i] == 255) | (od[i] == nf - 1) | (od[i] == 0xffff)); g.u16(oa + 2 * i, od[i]); g.u32(na + 4 * i, r[4 + i]); g.str(r[4 + i], nm[i]); }
    pe_base p = g.open(); export_info in; bool wi = sym_choose(2, "info"); exported_functions_list l; bool th = THROWS(l = wi ? get_exported_functions(p, in) : get_exported_functions(p)); bool over = false; for (unsigned i = 0; i < nf; i++) if (e[i].kind) over = over | (bs > 0xffff - i); over = sym_concretize(over); sym_assert(th == over, "refused exactly when an ordinal does not fit"); if (th || over) { sym_reach("refused"); return; }
    if (wi) { sym_assert(in.get_characteristics() == ch && in.get_timestamp() == ts && in.get_major_version() == mj && in.get_minor_version() == mi && in.get_ordinal_base() == bs && in.get_number_of_functions() == nf && in.get_number_of_names() == nn && in.get_rva_of_functions() == fa && in.get_rva_of_names() == na && in.get_rva_of_name_ordinals() == oa, "fields of the directory"); sym_assert(eqs(in.get_name(), lib), "library name"); }
    size_t q = 0; for (unsigned i = 0; i < nf; i++) {
        if (!e[i].kind) continue; sym_assert(q < l.size(), "every function"); if (q >= l.size()) return; const exported_function& f = l[q++]; sym_assert(f.get_rva() == e[i].rva && f.get_ordinal() == (uint16_t)(bs + i), "address and ordinal"); unsigned fw = e[i].kind == 2 ? 1 : e[i].kind == 3 ? 2 : 0; sym_assert(f.is_forwarded() == (fw != 0) && f.get_forwarded_name() == FW[fw], "forwarder");
        unsigned k = 0; while (k < nn && !sym_concretize(od[k] == i)) k++; sym_assert(f.has_name() == (k < nn), "named exactly when a table names it"); if (f.has_name() != (k < nn)) return; if (k < nn) sym_assert(eqs(f.get_name(), nm[k]) && f.get_name_ordinal() == i, "name"); else sym_assert(f.get_name().empty(), "no name");
    }
    sym_assert(q == l.size(), "no other functions"); sym_reach(how == 5 ? "headers" : how == 4 ? "zeros" : "exports");
}
extern "C" void c33_exports() { unsigned nf = sym_choose(3, "functions"), nn = sym_choose(3, "names"); if (nn > nf) sym_done(); exports(nf, nn, ARRANGE, false); }
extern "C" void c33_exports3() { exports(3, 2, 1, false); }
extern "C" void c33_manyexports() { static const unsigned N[3] = { 255, 256, 300 }; exports(N[sym_choose(3, "number")], 20, 1, true); }
// names and forwarders that leave the image, tables that do not fit
extern "C" void c33_badexports()
{
    bool pe64 = sym_choose(2, "pe64"); Foreign g(pe64); std::string d(40, 0); put32(d, 12, A0 + 0x80); put32(d, 16, 1); put32(d, 20, 2); put32(d, 24, 1); put32(d, 28, A0 + 0x100); put32(d, 32, A0 + 0x140); put32(d, 36, A0 + 0x180); uint32_t dir = A0, size = 40, nm = A0 + 0xc0, fn = 0x1234; g.str(A0 + 0x80, "lib"); g.str(A0 + 0xc0, "name"); bool bad = true; unsigned how = sym_choose(11, "how"); bool wi = sym_choose(2, "info");
    switch (how)
    {
    case 0: put32(d, 12, A1 - 3); bad = wi; break;
    case 1: nm = A1 - 4; break;
    case 2: nm = sym_u32("name"); sym_assume((nm >= B1) | ((nm >= H1) & (nm < A0))); break;
    case 3: size = 0x400; fn = A1 - 5; break;
    case 4: { uint32_t x = sym_u32("functions"); sym_assume((x > B1 - 8) | (x == 0) | ((x > H1 - 8) & (x < A0)) | ((x > A1 - 8) & (x < A1))); put32(d, 28, x); break; }
    case 5: { uint32_t x = sym_u32("names"); sym_assume((x > B1 - 4) | (x == 0) | ((x > H1 - 4) & (x < A0)) | ((x > A1 - 4) & (x < A1))); put32(d, 32, x); break; }
    case 6: { uint32_t x = sym_u32("indices"); sym_assume((x > B1 - 2) | (x == 0) | ((x > H1 - 2) & (x < A0)) | ((x > A1 - 2) & (x < A1))); put32(d, 36, x); break; }
    case 7: { uint32_t x = sym_u32("functions"); sym_assume(x > (A1 - A0 - 0x100) / 4); put32(d, 20, x); break; }
    case 8: { uint32_t x = sym_u32("lib"); sym_assume((x >= B1 - 1) | ((x >= H1 - 1) & (x < A0))); put32(d, 12, x); bad = wi; break; }
    case 9: { uint32_t x = sym_u32("directory"); sym_assume((x > B1 - 40) | ((x > H1 - 40) & (x < A0)) | ((x > A1 - 40) & (x < A1))); dir = x; break; }
    default: bad = false; break;
    }
    g.at(A0, d); g.dir(0, dir, size); g.u32(A0 + 0x100, fn); g.u32(A0 + 0x104, 0x4321); g.u32(A0 + 0x140, nm); g.u16(A0 + 0x180, 0); pe_base p = g.open(); export_info in; bool th = THROWS(if (wi) get_exported_functions(p, in); else get_exported_functions(p)); sym_assert(th == bad, "tables that leave the image are refused"); sym_reach(bad ? "damaged" : "sound");
}
extern "C" void c33_none() { Foreign g(sym_choose(2, "pe64")); g.dir(0, 0, sym_u32("size")); g.dir(1, 0, sym_u32("size")); pe_base p = g.open(); export_info in; sym_assert(get_imported_functions(p).empty() && get_exported_functions(p).empty() && get_exported_functions(p, in).empty(), "an image without the directories has neither"); sym_reach("none"); }
