// C21: the resource manager and viewer act as a keyed store of resources.
#include "dir.h"
#include "pe_resource_manager.h"
#include <vector>
typedef pe_resource_viewer::resource_type RT;
static bool weq(const std::wstring& a, const std::wstring& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
struct Key { bool named; uint32_t id; std::wstring name; Key() : named(false), id(0) {} };
static bool same(const Key& a, const Key& b) { if (a.named != b.named) return false; if (a.named) return sym_concretize(weq(a.name, b.name)); return sym_concretize(a.id == b.id); }
// fixed=0: an arbitrary key; otherwise a name of one arbitrary character or an arbitrary id
static Key key(bool named, bool type) { Key k; k.named = named; if (named) { k.name = std::wstring(1, 0); k.name[0] = sym_u16("name"); } else { k.id = sym_u32("id"); if (type) sym_assume(k.id < 32); } return k; }
struct Rec { Key type, name; uint32_t lang; std::string data; uint32_t cp; };
typedef std::vector<Rec> Store;
static int find(const Store& s, const Key& t, const Key& n, uint32_t lang) { for (size_t i = 0; i < s.size(); i++) if (same(s[i].type, t) && same(s[i].name, n) && sym_concretize(s[i].lang == lang)) return i; return -1; }
static void put(Store& s, const Rec& r) { int i = find(s, r.type, r.name, r.lang); if (i >= 0) s.erase(s.begin() + i); s.push_back(r); }
static void add(pe_resource_manager& m, const Rec& r, uint32_t ts) { RT t = (RT)r.type.id; if (r.type.named) { if (r.name.named) m.add_resource(r.data, r.type.name, r.name.name, r.lang, r.cp, ts); else m.add_resource(r.data, r.type.name, r.name.id, r.lang, r.cp, ts); } else if (r.name.named) m.add_resource(r.data, t, r.name.name, r.lang, r.cp, ts); else m.add_resource(r.data, t, r.name.id, r.lang, r.cp, ts); }
static resource_data_info get(const pe_resource_viewer& v, const Key& t, const Key& n, uint32_t lang) { RT x = (RT)t.id; if (n.named) return t.named ? v.get_resource_data_by_name(lang, t.name, n.name) : v.get_resource_data_by_name(lang, x, n.name); return t.named ? v.get_resource_data_by_id(lang, t.name, n.id) : v.get_resource_data_by_id(lang, x, n.id); }
static resource_data_info geti(const pe_resource_viewer& v, const Key& t, const Key& n, uint32_t i) { RT x = (RT)t.id; if (n.named) return t.named ? v.get_resource_data_by_name(t.name, n.name, i) : v.get_resource_data_by_name(x, n.name, i); return t.named ? v.get_resource_data_by_id(t.name, n.id, i) : v.get_resource_data_by_id(x, n.id, i); }
static std::vector<uint32_t> langs(const pe_resource_viewer& v, const Key& t, const Key& n) { RT x = (RT)t.id; if (n.named) return t.named ? v.list_resource_languages(t.name, n.name) : v.list_resource_languages(x, n.name); return t.named ? v.list_resource_languages(t.name, n.id) : v.list_resource_languages(x, n.id); }
static uint32_t nlangs(const pe_resource_viewer& v, const Key& t, const Key& n) { RT x = (RT)t.id; if (n.named) return t.named ? v.get_language_count(t.name, n.name) : v.get_language_count(x, n.name); return t.named ? v.get_language_count(t.name, n.id) : v.get_language_count(x, n.id); }
// distinct values of one kind
static void uniq(std::vector<Key>& l, const Key& k) { for (size_t i = 0; i < l.size(); i++) if (same(l[i], k)) return; l.push_back(k); }
static bool lists(const std::vector<Key>& want, const std::vector<uint32_t>& ids, bool names, const std::vector<std::wstring>& nm) { size_t n = 0; for (size_t i = 0; i < want.size(); i++) { if (want[i].named && !names) continue; if (want[i].named) { bool f = false; for (size_t j = 0; j < nm.size(); j++) f = f | weq(nm[j], want[i].name); if (!f) return false; } else { bool f = false; for (size_t j = 0; j < ids.size(); j++) f = f | (ids[j] == want[i].id); if (!f) return false; } n++; } return n == ids.size() + (names ? nm.size() : 0); }
// everything the viewer reports about one key
static void query(const pe_resource_viewer& v, const Store& s, const Key& t, const Key& n, uint32_t lang)
{
    std::vector<Key> types, names, ls; for (size_t i = 0; i < s.size(); i++) { uniq(types, s[i].type); if (same(s[i].type, t)) { uniq(names, s[i].name); if (same(s[i].name, n)) { Key k; k.id = s[i].lang; ls.push_back(k); } } }
    std::vector<std::wstring> none; RT x = (RT)t.id; sym_assert(lists(types, v.list_resource_types(), false, none), "numbered types are listed"); sym_assert((t.named ? v.resource_exists(t.name) : v.resource_exists(x)) == !names.empty(), "type existence");
    try { uint32_t c = t.named ? v.get_resource_count(t.name) : v.get_resource_count(x); sym_assert(!names.empty() && c == names.size(), "resource count"); sym_assert(lists(names, t.named ? v.list_resource_ids(t.name) : v.list_resource_ids(x), true, t.named ? v.list_resource_names(t.name) : v.list_resource_names(x)), "names and ids are listed"); } catch (const pe_exception&) { sym_assert(names.empty(), "the resources of an existing type are counted"); }
    try { uint32_t c = nlangs(v, t, n); sym_assert(!ls.empty() && c == ls.size(), "language count"); sym_assert(lists(ls, langs(v, t, n), false, none), "languages are listed"); } catch (const pe_exception&) { sym_assert(ls.empty(), "the languages of an existing resource are counted"); }
    int at = find(s, t, n, lang); try { resource_data_info d = get(v, t, n, lang); sym_assert(at >= 0 && eqs(d.get_data(), s[at].data) && d.get_codepage() == s[at].cp, "data and code page by language"); } catch (const pe_exception&) { sym_assert(at < 0, "an existing resource is returned"); }
    uint32_t ix = sym_choose(3, "index"); try { resource_data_info d = geti(v, t, n, ix); sym_assert(ix < ls.size(), "an absent index is refused"); bool ok = false; std::vector<uint32_t> order = langs(v, t, n); for (size_t i = 0; i < s.size(); i++) if (same(s[i].type, t) && same(s[i].name, n)) ok = ok | ((order[ix] == s[i].lang) & eqs(d.get_data(), s[i].data) & (d.get_codepage() == s[i].cp)); sym_assert(ok, "the index counts the listed languages"); } catch (const pe_exception&) { sym_assert(ix >= ls.size(), "an existing index is returned"); }
}
// directories that stayed keep their stamp, new ones carry the given one
static void stamps(const resource_directory& root, const Rec& r, bool hadtype, bool hadname, uint32_t ts) { const resource_directory& a = (r.type.named ? root.entry_by_name(r.type.name) : root.entry_by_id(r.type.id)).get_resource_directory(); const resource_directory& b = (r.name.named ? a.entry_by_name(r.name.name) : a.entry_by_id(r.name.id)).get_resource_directory(); if (!hadtype) sym_assert(a.get_timestamp() == ts, "a new type directory is stamped"); else sym_assert(a.get_timestamp() == 1, "an existing type directory is kept"); if (!hadname) sym_assert(b.get_timestamp() == ts, "a new name directory is stamped"); else sym_assert(b.get_timestamp() == 1, "an existing name directory is kept"); }
// the tree of a store, built by the directory interface
static resource_directory tree(const Store& s)
{
    resource_directory root; std::vector<Key> types; for (size_t i = 0; i < s.size(); i++) uniq(types, s[i].type);
    for (size_t a = 0; a < types.size(); a++) { resource_directory td; td.set_timestamp(1); std::vector<Key> names; for (size_t i = 0; i < s.size(); i++) if (same(s[i].type, types[a])) uniq(names, s[i].name);
        for (size_t b = 0; b < names.size(); b++) { resource_directory nd; nd.set_timestamp(1); for (size_t i = 0; i < s.size(); i++) if (same(s[i].type, types[a]) && same(s[i].name, names[b])) { resource_directory_entry e; e.set_id(s[i].lang); e.add_data_entry(resource_data_entry(s[i].data, s[i].cp)); nd.add_resource_directory_entry(e); } resource_directory_entry e; if (names[b].named) e.set_name(names[b].name); else e.set_id(names[b].id); e.add_resource_directory(nd); td.add_resource_directory_entry(e); }
        resource_directory_entry e; if (types[a].named) e.set_name(types[a].name); else e.set_id(types[a].id); e.add_resource_directory(td); root.add_resource_directory_entry(e); } return root;
}
static Rec rec(unsigned kind, unsigned len) { Rec r; r.type = key(kind & 1, true); r.name = key(kind & 2, false); r.lang = sym_u32("lang"); r.data = sym_str(len, "data"); r.cp = sym_u32("codepage"); return r; }
enum { ADD, DELTYPE, DELNAME, DELLANG };
static void step(pe_resource_manager& m, Store& s, unsigned op, unsigned kind)
{
    Rec r = rec(kind, op == ADD ? 2 : 0); RT t = (RT)r.type.id; bool hadt = false, hadn = false, hadl = false; Store rest; for (size_t i = 0; i < s.size(); i++) { bool a = same(s[i].type, r.type), b = a && same(s[i].name, r.name), c = b && sym_concretize(s[i].lang == r.lang); hadt |= a; hadn |= b; hadl |= c; if (!(op == DELTYPE ? a : op == DELNAME ? b : c)) rest.push_back(s[i]); }
    bool got = false, want = op == DELTYPE ? hadt : op == DELNAME ? hadn : hadl;
    switch (op) {
    case ADD: { uint32_t ts = sym_u32("stamp"); add(m, r, ts); stamps(m.get_root_directory(), r, hadt, hadn, ts); rest.push_back(r); got = want; break; }
    case DELTYPE: got = r.type.named ? m.remove_resource(r.type.name) : m.remove_resource_type(t); break;
    case DELNAME: if (r.name.named) got = r.type.named ? m.remove_resource(r.type.name, r.name.name) : m.remove_resource(t, r.name.name); else got = r.type.named ? m.remove_resource(r.type.name, r.name.id) : m.remove_resource(t, r.name.id); break;
    case DELLANG: if (r.name.named) got = r.type.named ? m.remove_resource(r.type.name, r.name.name, r.lang) : m.remove_resource(t, r.name.name, r.lang); else got = r.type.named ? m.remove_resource(r.type.name, r.name.id, r.lang) : m.remove_resource(t, r.name.id, r.lang); break;
    }
    sym_assert(got == want, "the result tells whether something was removed"); s = rest;
}
static void start(Store& s, unsigned n, unsigned kinds) { for (unsigned i = 0; i < n; i++) { Rec r = rec(kinds >> (2 * i), i); put(s, r); } }
// one operation on any tree of up to n resources, then any query
static void one(unsigned n, unsigned op) { Store s; unsigned k = sym_choose(4, "kind"), other = sym_choose(2, "mixed"); unsigned kinds = 0; for (unsigned i = 0; i < n; i++) kinds |= (i == 0 && other ? k ^ 1 : i == 1 && other ? k ^ 2 : k) << (2 * i); start(s, n, kinds); resource_directory root = tree(s); pe_resource_manager m(root); step(m, s, op, k); const pe_resource_viewer& v = m; sym_assert(&v.get_root_directory() == &root && &m.get_root_directory() == &root, "the manager edits the given tree"); Key t = key(k & 1, true), nm = key(k & 2, false); pe_resource_viewer w(root); query(w, s, t, nm, sym_u32("querylang")); sym_reach("queried"); }
extern "C" void c21_add() { one(sym_choose(3, "n"), ADD); }
extern "C" void c21_deltype() { one(sym_choose(3, "n"), DELTYPE); }
extern "C" void c21_delname() { one(sym_choose(3, "n"), DELNAME); }
extern "C" void c21_dellang() { one(sym_choose(3, "n"), DELLANG); }
extern "C" void c21_add3() { one(3, ADD); }
extern "C" void c21_del3() { one(3, 1 + sym_choose(3, "operation")); }
// histories from the empty tree
static void history(unsigned n) { Store s; resource_directory root; pe_resource_manager m(root); unsigned kind = sym_choose(4, "kind"); for (unsigned i = 0; i < n; i++) { Rec r; unsigned op = i == 0 ? 0u : sym_choose(4, "op"); if (op == ADD) { r = rec(kind, i + 1); add(m, r, 1); put(s, r); } else step(m, s, op, kind); } Key t = key(kind & 1, true), nm = key(kind & 2, false); query(m, s, t, nm, sym_u32("querylang")); sym_reach("history"); }
extern "C" void c21_history() { history(3); }
extern "C" void c21_history4() { history(4); }
// the data to store may come from the tree itself
extern "C" void c21_alias()
{
    Store s; start(s, 2, 0); resource_directory root = tree(s); pe_resource_manager m(root); const Rec& src = s[0]; Rec r = rec(0, 0); r.data = src.data; r.cp = 3; m.add_resource(root.entry_by_id(src.type.id).get_resource_directory().entry_by_id(src.name.id).get_resource_directory().entry_by_id(src.lang).get_data_entry().get_data(), (RT)r.type.id, r.name.id, r.lang, 3, 1); put(s, r); Key t = key(false, true), nm = key(false, false); query(m, s, t, nm, sym_u32("querylang")); sym_reach("alias");
}
// many resources, long names, long data
extern "C" void c21_large()
{
    static const unsigned L[6] = { 127, 255, 256, 300, 1000, 40000 }; unsigned k = sym_choose(10, "case"), n = k < 6 ? 2 : 258; Store s; resource_directory root; pe_resource_manager m(root);
    for (unsigned i = 0; i < n; i++) { unsigned j = (i * 7) % n; Rec r; r.type.id = 5; r.name.id = 1; r.lang = 9; r.cp = j; r.data = std::string(1 + j % 3, (char)j); if (j == 1) r.data = sym_str(2, "data"); if (k < 3) { r.name.named = true; r.name.name = std::wstring(L[k], L'n') + (j ? L"a" : L"b"); } else if (k < 6) { r.data = std::string(L[k] * 2, 'd') + sym_str(1, "end"); r.name.id = j; } else if (k == 6) r.name.id = j; else if (k == 7) r.lang = j; else if (k == 8) { r.name.named = true; r.name.name = std::wstring(1, 0x100 + j); } else { r.type.named = true; r.type.name = std::wstring(1, 0x100 + j); } add(m, r, 1); put(s, r); }
    static const unsigned Q[5] = { 0, 1, 254, 255, 257 }; unsigned q = Q[sym_choose(5, "query")]; if (q >= n) return; Rec x = s[q]; query(m, s, x.type, x.name, x.lang); Store rest; for (size_t i = 0; i < s.size(); i++) if (i != q) rest.push_back(s[i]); bool got = x.type.named ? m.remove_resource(x.type.name) : k == 7 ? m.remove_resource((RT)5, x.name.id, x.lang) : x.name.named ? m.remove_resource((RT)5, x.name.name) : m.remove_resource((RT)5, x.name.id); sym_assert(got, "the result tells whether something was removed"); query(m, rest, x.type, x.name, x.lang); Rec y = rest[rest.size() / 2]; query(m, rest, y.type, y.name, y.lang); sym_reach("large");
}
