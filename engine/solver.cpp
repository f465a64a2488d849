#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>

SolverStats gSolverStats;
static Z3_context ctx; static Z3_solver solver = nullptr;
static unsigned curTimeout = 0;
static std::unordered_set<uint32_t> asserted;
static std::unordered_map<uint32_t, Z3_ast> lits;
static std::unordered_map<uint32_t, Z3_ast> varAst;

static void errH(Z3_context c, Z3_error_code e) { fprintf(stderr, "psx: z3 error %s\n", Z3_get_error_msg(c, e)); }
static void newSolver() {
  if (solver) Z3_solver_dec_ref(ctx, solver);
  solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, solver);
  asserted.clear(); curTimeout = 0;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg); Z3_set_error_handler(ctx, errH);
  newSolver();
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast tbv(E e); static Z3_ast tbool(E e);
static Z3_ast num(unsigned w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64)); Z3_inc_ref(ctx, lo);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)); Z3_inc_ref(ctx, hi);
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast tbv(E e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r; unsigned w = e->width;
  switch (e->kind) {
    case EK_Const: r = num(w, e->cval); break;
    case EK_Var: { char b[32]; snprintf(b, sizeof b, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bv_sort(ctx, 8)); break; }
    case EK_Eq: case EK_Ult: case EK_Slt: r = Z3_mk_ite(ctx, tbool(e), num(1, 1), num(1, 0)); break;
    case EK_Add: r = Z3_mk_bvadd(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Sub: r = Z3_mk_bvsub(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Mul: r = Z3_mk_bvmul(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_UDiv: r = Z3_mk_bvudiv(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_SDiv: r = Z3_mk_bvsdiv(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_URem: r = Z3_mk_bvurem(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_SRem: r = Z3_mk_bvsrem(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_And: if (w == 1) { r = Z3_mk_ite(ctx, tbool(e), num(1, 1), num(1, 0)); break; } r = Z3_mk_bvand(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Or: if (w == 1) { r = Z3_mk_ite(ctx, tbool(e), num(1, 1), num(1, 0)); break; } r = Z3_mk_bvor(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Xor: r = Z3_mk_bvxor(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Not: r = Z3_mk_bvnot(ctx, tbv(e->k[0])); break;
    case EK_Shl: r = Z3_mk_bvshl(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_LShr: r = Z3_mk_bvlshr(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_AShr: r = Z3_mk_bvashr(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Concat: r = Z3_mk_concat(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Extract: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, tbv(e->k[0])); break;
    case EK_ZExt: r = Z3_mk_zero_ext(ctx, w - e->k[0]->width, tbv(e->k[0])); break;
    case EK_SExt: r = Z3_mk_sign_ext(ctx, w - e->k[0]->width, tbv(e->k[0])); break;
    case EK_Ite: r = Z3_mk_ite(ctx, tbool(e->k[0]), tbv(e->k[1]), tbv(e->k[2])); break;
    default: abort();
  }
  keep(r); e->zbv = r; return r;
}
static Z3_ast tbool(E e) {
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch (e->kind) {
    case EK_Const: r = e->cval ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EK_Eq: r = Z3_mk_eq(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Ult: r = Z3_mk_bvult(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Slt: r = Z3_mk_bvslt(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
    case EK_Not: r = Z3_mk_not(ctx, tbool(e->k[0])); break;
    case EK_And: { Z3_ast a[2] = {tbool(e->k[0]), tbool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case EK_Or: { Z3_ast a[2] = {tbool(e->k[0]), tbool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case EK_Xor: r = Z3_mk_xor(ctx, tbool(e->k[0]), tbool(e->k[1])); break;
    case EK_Ite: r = Z3_mk_ite(ctx, tbool(e->k[0]), tbool(e->k[1]), tbool(e->k[2])); break;
    default: r = Z3_mk_eq(ctx, tbv(e), num(1, 1)); break;
  }
  keep(r); e->zbool = r; return r;
}

// ---- variable sets -------------------------------------------------------
typedef std::vector<uint64_t> Bits;
static std::vector<Bits> sets; static std::unordered_multimap<uint64_t, int> setIdx; static std::unordered_map<uint64_t, int> unionMemo;
static int internSet(const Bits& b) {
  uint64_t h = 1469598103934665603ull; for (uint64_t x : b) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
  auto r = setIdx.equal_range(h); for (auto it = r.first; it != r.second; ++it) if (sets[it->second] == b) return it->second;
  sets.push_back(b); setIdx.emplace(h, (int)sets.size() - 1); return (int)sets.size() - 1;
}
static int unionSet(int a, int b) {
  if (a == b) return a; if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b; auto it = unionMemo.find(key); if (it != unionMemo.end()) return it->second;
  Bits r = sets[a].size() > sets[b].size() ? sets[a] : sets[b]; const Bits& o = sets[a].size() > sets[b].size() ? sets[b] : sets[a];
  for (size_t i = 0; i < o.size(); i++) r[i] |= o[i];
  int id = internSet(r); unionMemo[key] = id; return id;
}
static int varSet(E e) {
  if (e->varset >= 0) return e->varset;
  int r;
  if (e->kind == EK_Const) r = internSet(Bits());
  else if (e->kind == EK_Var) { Bits b(e->aux / 64 + 1, 0); b[e->aux / 64] |= 1ull << (e->aux % 64); r = internSet(b); }
  else { r = varSet(e->k[0]); for (int i = 1; i < e->nk; i++) r = unionSet(r, varSet(e->k[i])); }
  e->varset = r; return r;
}
static bool intersects(const Bits& a, const Bits& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true; return false; }

// x equals a constant: strike the variables this fixes
static bool clearFixed(E x, Bits& b) {
  if (x->kind == EK_ZExt) return clearFixed(x->k[0], b);
  if (x->kind == EK_Concat) { bool l = clearFixed(x->k[0], b), r = clearFixed(x->k[1], b); return l | r; }
  if (x->kind == EK_Var && x->aux / 64 < b.size() && (b[x->aux / 64] >> (x->aux % 64) & 1)) { b[x->aux / 64] &= ~(1ull << (x->aux % 64)); return true; }
  return false;
}

struct CacheEnt { SRes r; std::vector<std::pair<uint32_t, uint8_t>> asg; };
struct K128 { uint64_t a, b; bool operator==(const K128& o) const { return a == o.a && b == o.b; } };
struct KH { size_t operator()(const K128& k) const { return k.a; } };
static std::unordered_map<K128, CacheEnt, KH> cache;

static void flattenAnd(E e, std::vector<E>& out) { if (e->kind == EK_And) { flattenAnd(e->k[0], out); flattenAnd(e->k[1], out); } else out.push_back(e); }

SRes solverCheck(const std::vector<E>& cs, E q, const ModelP& base, ModelP* out, unsigned timeoutMs) {
  gSolverStats.queries++;
  if (isFalse(q)) return S_UNSAT;
  if (isTrue(q)) { if (out) *out = base; return S_SAT; }
  Bits cur; { int vs = varSet(q); cur = sets[vs]; }
  { // every variable of q already has one value: evaluation decides
    Bits left = cur; bool any = false; for (E c : cs) if (c->kind == EK_Eq) { E x = isC(c->k[0]) ? c->k[1] : isC(c->k[1]) ? c->k[0] : nullptr; if (x) any |= clearFixed(x, left); }
    if (any) { bool all = true; for (uint64_t w : left) if (w) all = false; if (all) { gSolverStats.cacheHits++; if (!evalExpr(q, *base)) return S_UNSAT; if (out) *out = base; return S_SAT; } }
  }
  std::vector<E> sl; flattenAnd(q, sl);
  std::vector<char> used(cs.size(), 0); bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < cs.size(); i++) if (!used[i]) {
      int v = varSet(cs[i]); const Bits& b = sets[v];
      if (intersects(b, cur)) { used[i] = 1; changed = true; sl.push_back(cs[i]); if (b.size() > cur.size()) cur.resize(b.size(), 0); for (size_t j = 0; j < b.size(); j++) cur[j] |= b[j]; }
    }
  }
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
  sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  K128 key{0x1234567, 0x9876543};
  for (E e : sl) { key.a = (key.a ^ e->id) * 0x9E3779B97F4A7C15ull; key.a ^= key.a >> 31; key.b = (key.b + e->id) * 0xC2B2AE3D27D4EB4Full; key.b ^= key.b >> 29; }
  auto mk = [&](const CacheEnt& c) { if (out) { auto m = std::make_shared<Model>(*base); m->id = newModelId(); for (auto& p : c.asg) { if (p.first >= m->v.size()) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; } *out = m; } };
  auto it = cache.find(key);
  if (it != cache.end()) { gSolverStats.cacheHits++; if (it->second.r == S_SAT) mk(it->second); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  gSolverStats.z3Queries++;
  static size_t lim = getenv("PSX_LIM") ? atoi(getenv("PSX_LIM")) : 200; if (asserted.size() > lim) newSolver();
  if (curTimeout != timeoutMs) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::max(50u, std::min(timeoutMs / 4, 2000u)));
    Z3_solver_set_params(ctx, solver, p); Z3_params_dec_ref(ctx, p); curTimeout = timeoutMs;
  }
  std::vector<Z3_ast> as;
  for (E e : sl) {
    auto li = lits.find(e->id); Z3_ast l;
    if (li == lits.end()) { char b[32]; snprintf(b, sizeof b, "p%u", e->id); l = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bool_sort(ctx))); lits[e->id] = l; } else l = li->second;
    if (asserted.insert(e->id).second) Z3_solver_assert(ctx, solver, Z3_mk_implies(ctx, l, tbool(e)));
    as.push_back(l);
  }
  Z3_lbool r = Z3_solver_check_assumptions(ctx, solver, as.size(), as.data());
  Z3_solver used_s = solver; Z3_solver fresh = nullptr;
  if (r == Z3_L_UNDEF && timeoutMs > 0) {
    // second opinion: a fresh solver on the bare conjunction, with the full preprocessing of the QF_BV tactic
    newSolver();
    Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t); fresh = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, fresh); Z3_tactic_dec_ref(ctx, t);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs); Z3_solver_set_params(ctx, fresh, p); Z3_params_dec_ref(ctx, p);
    for (E e : sl) Z3_solver_assert(ctx, fresh, tbool(e));
    r = Z3_solver_check(ctx, fresh); used_s = fresh; gSolverStats.fresh++;
  }
  CacheEnt ce; ce.r = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
  if (ce.r == S_SAT) {
    Z3_model m = Z3_solver_get_model(ctx, used_s); Z3_model_inc_ref(ctx, m);
    for (size_t i = 0; i < cur.size() * 64; i++) if (cur[i / 64] >> (i % 64) & 1) {
      Z3_ast v = tbv(mkVar(i)), o = nullptr; uint8_t val = 0;
      Z3_func_decl fd = Z3_get_app_decl(ctx, Z3_to_app(ctx, v)); o = Z3_model_get_const_interp(ctx, m, fd);
      if (o) { unsigned u = 0; Z3_get_numeral_uint(ctx, o, &u); val = (uint8_t)u; }
      ce.asg.emplace_back((uint32_t)i, val);
    }
    Z3_model_dec_ref(ctx, m);
    // the solver's answer is checked by evaluation: a wrong translation or model is never trusted
    Model chk; chk.id = newModelId(); for (auto& p : ce.asg) { if (p.first >= chk.v.size()) chk.v.resize(p.first + 1, 0); chk.v[p.first] = p.second; }
    for (E e : sl) if (!evalExpr(e, chk)) { fprintf(stderr, "psx: model check failed: %s\n", exprStr(e).c_str()); ce.r = S_UNKNOWN; break; }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolverStats.time += dt; if (dt > gSolverStats.maxTime) gSolverStats.maxTime = dt;
  static const char* dumpDir = getenv("PSX_DUMP");
  if (dumpDir && dt > 0.3) {
    static int dn = 0; char fn[256]; snprintf(fn, sizeof fn, "%s/q_%d_%d_%s_%.1f.smt2", dumpDir, (int)getpid(), dn++, ce.r == S_SAT ? "sat" : ce.r == S_UNSAT ? "unsat" : "unk", dt);
    Z3_solver ds = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, ds); for (E e : sl) Z3_solver_assert(ctx, ds, tbool(e));
    if (FILE* f = fopen(fn, "w")) { fputs(Z3_solver_to_string(ctx, ds), f); fputs("(check-sat)\n", f); fclose(f); }
    Z3_solver_dec_ref(ctx, ds);
  }
  if (ce.r == S_SAT) gSolverStats.sat++; else if (ce.r == S_UNSAT) gSolverStats.unsat++; else { gSolverStats.unknown++; }
  if (fresh) Z3_solver_dec_ref(ctx, fresh);
  if (ce.r == S_SAT) mk(ce);
  if (ce.r != S_UNKNOWN) cache.emplace(key, std::move(ce)); else return S_UNKNOWN;
  return cache.find(key)->second.r;
}
