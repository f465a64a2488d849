// psx: symbolic executor for LLVM 18 bitcode (path forking, bit-vector memory, Z3).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <memory>
#include <functional>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- options
static double optTime = 60; static unsigned optWorkers = 8; static unsigned optQueryMs = 10000; static u64 optMaxSteps = 30000000;
static u64 optMaxAlloc = 1 << 22; static std::string optOut = "/dev/stdout", optEntry = "harness", optCov, optTrace; static unsigned optMaxErr = 3;
static u64 optMaxMemMB = 3000; static bool optVerbose = false; static unsigned optIteRange = 1100; static std::string optReplay; static bool optForkPtr = false;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<u64> forks; };
static Shared* shm;

// ---------------------------------------------------------------- values & memory
struct Val { u64 c; E e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(E e) { if (isC(e) && e->width <= 64) return Val{(u64)e->cval, nullptr}; return Val{0, e}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Obj {
  uint32_t refc; uint32_t size; uint8_t kind; bool ro; // kind: 0 heap 1 stack 2 global 3 func 4 exception
  uint8_t* data; E* sym; uint32_t nsym;
};
enum { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_EXC };
static Obj* newObj(u64 size, int kind, int fill) {
  Obj* o = new Obj; o->refc = 1; o->size = size; o->kind = kind; o->ro = false; o->data = size ? (uint8_t*)malloc(size) : nullptr; o->sym = nullptr; o->nsym = 0;
  if (size) memset(o->data, fill, size); return o;
}
static void decObj(Obj* o) { if (o && --o->refc == 0) { free(o->data); free(o->sym); delete o; } }
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(*o); n->refc = 1; n->data = o->size ? (uint8_t*)malloc(o->size) : nullptr; if (o->size) memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (E*)malloc(o->size * sizeof(E)); memcpy(n->sym, o->sym, o->size * sizeof(E)); }
  return n;
}
static const unsigned CHSZ = 64;
struct Chunk { uint32_t refc; Obj* o[CHSZ]; };
static Obj FREED;
struct Memory {
  std::vector<Chunk*> ch; u64 nextId = 16;
  Memory() {}
  Memory(const Memory& m) : ch(m.ch), nextId(m.nextId) { for (Chunk* c : ch) if (c) c->refc++; }
  ~Memory() { for (Chunk* c : ch) decC(c); }
  static void decC(Chunk* c) { if (c && --c->refc == 0) { for (Obj* o : c->o) if (o && o != &FREED) decObj(o); delete c; } }
  Obj* get(u64 id) const { u64 i = id / CHSZ; if (i >= ch.size() || !ch[i]) return nullptr; return ch[i]->o[id % CHSZ]; }
  Chunk* wch(u64 i) {
    if (i >= ch.size()) ch.resize(i + 1, nullptr);
    if (!ch[i]) { ch[i] = new Chunk; ch[i]->refc = 1; memset(ch[i]->o, 0, sizeof ch[i]->o); }
    else if (ch[i]->refc > 1) { Chunk* n = new Chunk(*ch[i]); n->refc = 1; for (Obj* o : n->o) if (o && o != &FREED) o->refc++; ch[i]->refc--; ch[i] = n; }
    return ch[i];
  }
  u64 add(Obj* o) { u64 id = nextId++; wch(id / CHSZ)->o[id % CHSZ] = o; return id; }
  Obj* getW(u64 id) { Chunk* c = wch(id / CHSZ); Obj*& o = c->o[id % CHSZ]; if (o->refc > 1) { Obj* n = cloneObj(o); o->refc--; o = n; } return o; }
  void release(u64 id) { Chunk* c = wch(id / CHSZ); decObj(c->o[id % CHSZ]); c->o[id % CHSZ] = &FREED; }
};
static inline u64 addrOf(u64 id) { return id << 32; }
static inline void setSym(Obj* o, u64 i, E e) { // e width 8
  if (isC(e)) { o->data[i] = (uint8_t)e->cval; if (o->sym && o->sym[i]) { o->sym[i] = nullptr; o->nsym--; } return; }
  if (!o->sym) { o->sym = (E*)calloc(o->size, sizeof(E)); }
  if (!o->sym[i]) o->nsym++;
  o->sym[i] = e;
}
static inline void setConc(Obj* o, u64 i, uint8_t b) { o->data[i] = b; if (o->sym && o->sym[i]) { o->sym[i] = nullptr; o->nsym--; } }
static inline E getB(Obj* o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : mkConst(8, o->data[i]); }

// ---------------------------------------------------------------- compiled functions
struct Op { int32_t slot; u64 c; E e; };
enum COp : uint8_t {
  C_NOP, C_BIN, C_CMP, C_LOAD, C_STORE, C_GEP, C_ALLOCA, C_BR, C_JMP, C_SWITCH, C_RET, C_CALL, C_INVOKE, C_SELECT,
  C_TRUNC, C_ZEXT, C_SEXT, C_COPY, C_LPAD, C_RESUME, C_UNREACH, C_EXTRACTV, C_INSERTV, C_FBIN, C_FCMP, C_FCAST, C_FNEG, C_CMPXCHG, C_RMW, C_FREEZE, C_UNSUP
};
struct CFunc;
typedef int (*ExtFn)(struct State&, struct CInst&);
struct Edge { uint32_t pc; std::vector<std::pair<int32_t, Op>> moves; };
struct CInst {
  COp op; uint8_t sub; uint16_t w, w2; int32_t dst; uint16_t ndst; Op a, b, c; uint32_t x, y;
  std::vector<Op> args; std::vector<u64> aux; const Instruction* I; CFunc* callee; int ext; bool covered;
};
struct CFunc {
  Function* F; std::string name; std::vector<CInst> code; std::vector<Edge> edges; uint32_t nslots = 0; bool compiled = false; bool entered = false; int extId = -1; bool hasBody = false;
  u64 addr = 0; bool lib = false;
};
static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, CFunc*> cfuncs; static std::unordered_map<u64, CFunc*> funcByAddr;
static std::unordered_map<const GlobalValue*, u64> gaddr; static std::unordered_map<u64, const GlobalVariable*> gvByAddr;
static std::vector<CFunc*> allFuncs;

// ---------------------------------------------------------------- state
struct Frame { CFunc* f; uint32_t pc; uint32_t regBase; std::vector<u64> allocas; };
struct SymIn { std::string name; uint32_t var0, n; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Memory mem; std::vector<E> cons; ModelP model;
  std::vector<std::pair<u64, u64>> excType; std::vector<u64> caught; u64 curExc = 0;
  std::vector<SymIn> ins; uint32_t nextVar = 0; u64 steps = 0; uint32_t depth = 0; u64 id = 0;
  std::vector<std::string> trace; bool dead = false; uint32_t iter = 0;
  uint32_t reachedAssert = 0;
};
static std::vector<State*> work; static State* S; // current
static u64 stateIds = 1;

// ---------------------------------------------------------------- statistics / results
struct Stats { u64 paths = 0, pathsAssert = 0, forks = 0, steps = 0, killedAssume = 0, errors = 0, asserts = 0, assertQueries = 0, unsup = 0, bounded = 0, unknown = 0, stepLimit = 0, dropped = 0; };
static Stats st; static std::map<std::string, u64> reach; static std::map<std::string, u64> unsupMap, boundedMap; static std::map<std::string, int> errSeen;
static std::vector<std::string> outLines; static int maxDepthSeen = 0;
static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { unsigned char c = ch; if (c == '"' || c == '\\') { r += '\\'; r += ch; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += ch; } return r; }
static std::string demang(const std::string& s) { std::string r = llvm::demangle(s); return r; }

static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  const DebugLoc& d = I->getDebugLoc(); if (!d) return "?";
  return d->getFilename().str() + ":" + std::to_string(d.getLine());
}
static std::string libLoc() { // innermost location inside the library under test
  for (int i = (int)S->fr.size() - 1; i >= 0; i--) {
    const Instruction* I = S->fr[i].f->code[S->fr[i].pc].I; if (!I) continue;
    for (const DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
      std::string f = d->getFilename().str();
      if (f.find("/pe_lib/") != std::string::npos || f.find("pe_lib") == 0) {
        std::string fn; if (auto* sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
        return f.substr(f.rfind('/') + 1) + ":" + std::to_string(d->getLine()) + ":" + fn;
      }
    }
  }
  return "?";
}
static std::string stackStr() {
  std::string s; int n = 0;
  for (int i = (int)S->fr.size() - 1; i >= 0 && n < 14; i--, n++) {
    const Instruction* I = S->fr[i].f->code[S->fr[i].pc].I; std::string nm = demang(S->fr[i].f->name); if (nm.size() > 90) nm.resize(90);
    s += nm + " @ " + locOf(I);
    if (I) { int k = 0; for (const DILocation* d = I->getDebugLoc() ? I->getDebugLoc()->getInlinedAt() : nullptr; d && k < 6; d = d->getInlinedAt(), k++) s += " < " + d->getFilename().str().substr(d->getFilename().str().rfind('/') + 1) + ":" + std::to_string(d->getLine()); }
    s += " | ";
  }
  return s;
}
static std::string inputsJson(const State& s, const Model& m) {
  std::string r = "[";
  for (size_t i = 0; i < s.ins.size(); i++) {
    r += (i ? ",[\"" : "[\"") + jesc(s.ins[i].name) + "\",\"";
    for (uint32_t k = 0; k < s.ins[i].n; k++) { char b[4]; uint32_t v = s.ins[i].var0 + k; snprintf(b, sizeof b, "%02x", v < m.v.size() ? m.v[v] : 0); r += b; }
    r += "\"]";
  }
  return r + "]";
}
static void emit(const std::string& line) { outLines.push_back(line); }
static void reportError(const std::string& kind, const std::string& msg, const ModelP& m) {
  st.errors++;
  std::string loc = libLoc(); std::string key = kind + "|" + (kind == "assert" ? msg : loc);
  if (++errSeen[key] > (int)optMaxErr) return;
  emit("{\"t\":\"error\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc) + "\",\"stack\":\"" + jesc(stackStr()) + "\",\"inputs\":" + inputsJson(*S, *m) + "}");
}

// ---------------------------------------------------------------- decisions
static void addCon(State& s, E c) {
  if (isTrue(c)) return;
  if (c->kind == EK_And) { addCon(s, c->k[0]); addCon(s, c->k[1]); return; }
  s.cons.push_back(c);
}
static int known(const State& s, E c) {
  E n = mkNot(c);
  for (size_t i = s.cons.size(); i-- > 0;) { if (s.cons[i] == c) return 1; if (s.cons[i] == n) return 0; }
  return -1;
}
static State* forkState(State& s, E c, const ModelP& m) {
  State* n = new State(s); n->id = stateIds++; n->depth++; addCon(*n, c); n->model = m; st.forks++;
  return n;
}
struct Kill { int why; };
enum { K_ERR, K_ASSUME, K_BOUND, K_UNSUP, K_DONE, K_STEPS, K_TIME };
// per-query budget, never beyond the end of the run (rounded so that the solver is not reconfigured all the time)
static unsigned qms() { double left = optTime - now(); if (left <= 0) throw Kill{K_TIME}; if (left * 1000 >= optQueryMs) return optQueryMs; unsigned m = (unsigned)(left * 2) * 500; return m < 500 ? 500 : m; }
static std::string libLoc(); static std::string locStr() { return libLoc(); }
static std::map<std::string, std::pair<double, unsigned>> prof; static bool optProf = getenv("PSX_PROF") != nullptr;
struct Prof { double t0; Prof() { if (optProf) t0 = gSolverStats.time; } ~Prof() { if (optProf && gSolverStats.time > t0) { auto& p = prof[locStr()]; p.first += gSolverStats.time - t0; p.second++; } } };
// returns 1/0; forks the other side (re-executing the current instruction)
static bool decide(E c) {
  if (isC(c)) return c->cval != 0;
  int k = known(*S, c); if (k >= 0) return k;
  if (c->kind == EK_And && known(*S, c->k[0]) == 1 && known(*S, c->k[1]) == 1) return true;
  bool v = evalExpr(c, *S->model) != 0;
  E pos = v ? c : mkNot(c), neg = v ? mkNot(c) : c;
  Prof pr; ModelP m; SRes r = solverCheck(S->cons, neg, S->model, &m, qms());
  if (r == S_SAT) { work.push_back(forkState(*S, neg, m)); S->depth++; addCon(*S, pos); }
  else if (r == S_UNKNOWN) { st.unknown++; addCon(*S, pos); }
  return v;
}
static ModelP feasible(E c) { // model satisfying constraints & c, or null
  if (isC(c)) return c->cval ? S->model : nullptr;
  if (evalExpr(c, *S->model)) return S->model;
  Prof pr; ModelP m; SRes r = solverCheck(S->cons, c, S->model, &m, qms());
  if (r == S_UNKNOWN) st.unknown++;
  return r == S_SAT ? m : nullptr;
}
static u64 concretize(const Val& v, unsigned w) { // forks over remaining values
  if (!v.e) return v.c;
  u64 c = (u64)evalExpr(v.e, *S->model);
  E eq = mkEq(v.e, mkConst(w, c));
  if (decide(eq)) return c;
  // model satisfied eq, so decide() must return true
  return c;
}

// ---------------------------------------------------------------- memory access
static bool nullish(u64 a) { return (a >> 32) < 16; }

// a pointer assembled from separately merged bytes: its object cannot be read off the expression
static bool mergedBytes(E e) { while (e->kind == EK_Concat) e = e->k[0]; while (e->kind == EK_Extract || e->kind == EK_ZExt) e = e->k[0]; return e->kind == EK_Ite; }
static bool collectBases(E e, std::set<u64>& out, bool& opaque, int depth = 0) {
  if (depth > 200 || out.size() > 64) { opaque = true; return false; }
  switch (e->kind) {
    case EK_Const: if (e->width == 64) { u64 b = ((u64)e->cval + 0x80000000ull) >> 32; /* base plus a possibly negative folded offset */ if (b >= 16 && b < S->mem.nextId) out.insert(b); } return true;
    case EK_Add: collectBases(e->k[0], out, opaque, depth + 1); collectBases(e->k[1], out, opaque, depth + 1); return true;
    case EK_Sub: collectBases(e->k[0], out, opaque, depth + 1); return true;
    case EK_Ite: collectBases(e->k[1], out, opaque, depth + 1); collectBases(e->k[2], out, opaque, depth + 1); return true;
    case EK_Concat: if (e->width > 32 && mergedBytes(e)) opaque = true; return true;
    case EK_ZExt: if (e->k[0]->width > 32) return collectBases(e->k[0], out, opaque, depth + 1); return true;
    default: return true;
  }
}
static const char* kindStr(Obj* o) { return o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : o->kind == OK_EXC ? "exception" : "global"; }
// Resolve an address to an object and an offset; forks when several objects are possible, reports
// (and then excludes) every address outside the object the pointer is based on.
static Obj* resolve(const Val& p, u64 size, bool write, Val& off, u64& id) {
  u64 a = p.e ? (u64)evalExpr(p.e, *S->model) : p.c;
  id = a >> 32;
  if (p.e) {
    std::set<u64> bases; bool opaque = false; collectBases(p.e, bases, opaque);
    if (bases.size() != 1 || opaque) { decide(mkEq(mkByte(p.e, 32, 32), mkConst(32, id))); }
    else if (bases.size() == 1) id = *bases.begin();
  }
  Obj* o = S->mem.get(id);
  if (!o || o == &FREED || o->kind == OK_FUNC) {
    const char* k = o == &FREED ? "use-after-free" : nullish(a) ? "null-deref" : "wild-pointer";
    char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at 0x%llx", write ? "write" : "read", (unsigned long long)size, (unsigned long long)a);
    reportError(k, b, S->model); throw Kill{K_ERR};
  }
  if (write && o->ro) { reportError("write-to-constant", "", S->model); throw Kill{K_ERR}; }
  if (!p.e) {
    u64 of = a & 0xffffffff; off = VC(of);
    if (of + size > o->size) {
      char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of %s object of %u bytes", write ? "write" : "read", (unsigned long long)size, (unsigned long long)of, kindStr(o), o->size);
      reportError("out-of-bounds", b, S->model); throw Kill{K_ERR};
    }
  } else {
    E offE = mkSub(p.e, mkConst(64, addrOf(id)));
    E oob = o->size >= size ? mkUlt(mkConst(64, o->size - size), offE) : mkConst(1, 1);
    if (ModelP m = feasible(oob)) {
      char b[200]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of %s object of %u bytes", write ? "write" : "read", (unsigned long long)size, (long long)(u64)evalExpr(offE, *m), kindStr(o), o->size);
      reportError("out-of-bounds", b, m);
      E inb = mkNot(oob); ModelP m2 = feasible(inb);
      if (!m2) throw Kill{K_ERR};
      S->model = m2; addCon(*S, inb);
    }
    off = VE(offE);
  }
  return o;
}
static E loadAt(Obj* o, u64 off, unsigned bytes) { // symbolic load at concrete offset
  E r = nullptr;
  for (unsigned i = 0; i < bytes; i++) { E b = getB(o, off + i); r = r ? mkConcat(b, r) : b; }
  return r;
}
static E muxRec(Obj* o, E x, u64 base, unsigned k, u64 lo, u64 hi, u64 shift, unsigned bytes) {
  if (base > hi || base + ((1ull << k) - 1) < lo) return nullptr;
  if (k == 0) return loadAt(o, base + shift, bytes);
  E l = muxRec(o, x, base, k - 1, lo, hi, shift, bytes), r = muxRec(o, x, base + (1ull << (k - 1)), k - 1, lo, hi, shift, bytes);
  if (!l) return r; if (!r) return l; if (l == r) return l;
  return mkIte(mkExtract(x, k - 1, 1), r, l);
}
// the bytes at offset off+delta of o, for off anywhere in [lo,hi] (which the path constraints imply): a multiplexer on the offset's bits
static E iteTree(Obj* o, E off, u64 lo, u64 hi, unsigned bytes, u64 delta = 0) {
  if (lo == hi) return loadAt(o, lo + delta, bytes);
  u64 shift = delta; E x = off;
  while (x->kind == EK_Add) {
    int ci = isC(x->k[1]) ? 1 : isC(x->k[0]) ? 0 : -1; if (ci < 0) break;
    u64 c = (u64)x->k[ci]->cval; u64 nlo = lo - c, nhi = hi - c; if (nlo > nhi || nhi >> 40) break;
    x = x->k[1 - ci]; lo = nlo; hi = nhi; shift += c;
  }
  if (x->kind == EK_ZExt && !(hi >> x->k[0]->width)) x = x->k[0];
  unsigned k = 0; while (k < 41 && (hi >> k)) k++; if (k > x->width) k = x->width;
  return muxRec(o, x, 0, k, lo, hi, shift, bytes);
}
static u64 minVal(E e, u64 lo, u64 hi) { // smallest feasible value of e in [lo,hi]
  u64 cur = (u64)evalExpr(e, *S->model); if (cur < hi) hi = cur;
  while (lo < hi) { u64 mid = lo + (hi - lo) / 2; ModelP m; SRes r = solverCheck(S->cons, mkNot(mkUlt(mkConst(e->width, mid), e)), S->model, &m, qms());
    if (r == S_SAT) { u64 v = (u64)evalExpr(e, *m); hi = v < mid ? v : mid; if (v < lo) hi = lo; } else if (r == S_UNSAT) lo = mid + 1; else return lo; }
  return lo;
}
static u64 maxVal(E e, u64 lo, u64 hi) {
  u64 cur = (u64)evalExpr(e, *S->model); if (cur > lo) lo = cur;
  while (lo < hi) { u64 mid = lo + (hi - lo + 1) / 2; ModelP m; SRes r = solverCheck(S->cons, mkNot(mkUlt(e, mkConst(e->width, mid))), S->model, &m, qms());
    if (r == S_SAT) { u64 v = (u64)evalExpr(e, *m); lo = v > mid ? v : mid; } else if (r == S_UNSAT) hi = mid - 1; else return hi; }
  return hi;
}
static void offRange(E off, u64 maxOff, u64& lo, u64& hi) {
  lo = off->lo; hi = off->hi < maxOff ? off->hi : maxOff; if (hi - lo > 16) { lo = minVal(off, lo, hi); hi = maxVal(off, lo, hi); }
}
static Val loadMem(const Val& p, unsigned w) {
  unsigned bytes = (w + 7) / 8; Val off; u64 id;
  Obj* o = resolve(p, bytes, false, off, id);
  if (!off.e) {
    u64 of = off.c;
    bool sym = false; if (o->nsym) for (unsigned i = 0; i < bytes; i++) if (o->sym[of + i]) { sym = true; break; }
    if (!sym && bytes <= 8) { u64 v = 0; memcpy(&v, o->data + of, bytes); return VC(v & mask64(w)); }
    E e = loadAt(o, of, bytes); if (e->width != w) e = mkExtract(e, 0, w); return VE(e);
  }
  u64 lo, hi; u64 maxOff = o->size - bytes;
  if (optForkPtr && o->kind != OK_GLOBAL) { u64 v = concretize(off, 64); E e = loadAt(o, v, bytes); if (e->width != w) e = mkExtract(e, 0, w); return VE(e); }
  offRange(off.e, maxOff, lo, hi);
  if (hi - lo > optIteRange) { u64 v = concretize(off, 64); E e = loadAt(o, v, bytes); if (e->width != w) e = mkExtract(e, 0, w); return VE(e); }
  E e = iteTree(o, off.e, lo, hi, bytes); if (e->width != w) e = mkExtract(e, 0, w);
  return VE(e);
}
// e with x replaced by the constant k (gives up, returning e, after too many nodes)
static E substRec(E e, E x, E k, unsigned& budget) {
  if (e == x) return k; if (isC(e) || e->kind == EK_Var || !budget) return e; budget--;
  if (e->kind == EK_Ite) { E c = substRec(e->k[0], x, k, budget); if (isC(c)) return substRec(c->cval ? e->k[1] : e->k[2], x, k, budget); return mkIte(c, substRec(e->k[1], x, k, budget), substRec(e->k[2], x, k, budget)); }
  E a = substRec(e->k[0], x, k, budget), b = e->nk > 1 ? substRec(e->k[1], x, k, budget) : nullptr;
  if (a == e->k[0] && (!b || b == e->k[1])) return e;
  switch (e->kind) {
    case EK_Add: return mkAdd(a, b); case EK_Sub: return mkSub(a, b); case EK_And: return mkAnd(a, b); case EK_Or: return mkOr(a, b); case EK_Not: return mkNot(a); case EK_Eq: return mkEq(a, b); case EK_Ult: return mkUlt(a, b); case EK_Slt: return mkSlt(a, b);
    case EK_Concat: return mkConcat(a, b); case EK_Extract: return mkExtract(a, e->aux, e->width); case EK_ZExt: return mkZExt(a, e->width); case EK_SExt: return mkSExt(a, e->width);
    default: return e; }
}
// v under the condition off == q
static E underOffset(E v, E off, u64 q) {
  for (;;) {
    if (off->kind == EK_Add && (isC(off->k[0]) || isC(off->k[1]))) { int ci = isC(off->k[0]) ? 0 : 1; q = (q - (u64)off->k[ci]->cval) & mask64(off->width); off = off->k[1 - ci]; }
    else if (off->kind == EK_ZExt) { if (off->k[0]->width < 64 && q >> off->k[0]->width) return v; off = off->k[0]; }
    else if (off->kind == EK_Concat && isC(off->k[1]) && off->k[1]->width < 64) { if ((q & mask64(off->k[1]->width)) != (u64)off->k[1]->cval) return v; q >>= off->k[1]->width; off = off->k[0]; }
    else if (off->kind == EK_Concat && isC(off->k[0]) && off->k[1]->width < 64) { if (q >> off->k[1]->width != (u64)off->k[0]->cval) return v; off = off->k[1]; }
    else break; }
  if (isC(off)) return v; unsigned budget = 400; E r = substRec(v, off, mkConst(off->width, q), budget); return budget ? r : v;
}
static void storeMem(const Val& p, const Val& v, unsigned w) {
  unsigned bytes = (w + 7) / 8; Val off; u64 id;
  resolve(p, bytes, true, off, id);
  if (off.e) {
    Obj* o = S->mem.get(id); u64 lo, hi; 
    if (optForkPtr) { off = VC(concretize(off, 64)); }
    else {
    offRange(off.e, o->size - bytes, lo, hi);
    if (hi - lo > optIteRange) { off = VC(concretize(off, 64)); }
    else {
      o = S->mem.getW(id); E ve = toE(v, w); if (w != bytes * 8) ve = mkZExt(ve, bytes * 8);
      for (u64 q = lo; q <= hi; q++) { E c = mkEq(off.e, mkConst(64, q)); if (isFalse(c)) continue; E vq = isC(ve) ? ve : underOffset(ve, off.e, q); for (unsigned i = 0; i < bytes; i++) setSym(o, q + i, mkIte(c, mkByte(vq, 8 * i, 8), getB(o, q + i))); }
      return;
    } }
  }
  Obj* o = S->mem.getW(id); u64 of = off.c;
  if (!v.e) { if (o->nsym) for (unsigned i = 0; i < bytes; i++) setConc(o, of + i, (uint8_t)(i < 8 ? v.c >> (8 * i) : 0)); else if (bytes <= 8) memcpy(o->data + of, &v.c, bytes); else { memset(o->data + of, 0, bytes); memcpy(o->data + of, &v.c, 8); } }
  else { E ve = v.e; if (w != bytes * 8) ve = mkZExt(ve, bytes * 8); for (unsigned i = 0; i < bytes; i++) setSym(o, of + i, mkByte(ve, 8 * i, 8)); }
}
static void copyMem(const Val& d, const Val& s, u64 n, bool) {
  if (n == 0) return;
  Val so, dof; u64 sid, did;
  resolve(s, n, false, so, sid);
  resolve(d, n, true, dof, did);
  u64 lo = 0, hi = 0; bool symSrc = false;
  if (so.e) { Obj* o = S->mem.get(sid); offRange(so.e, o->size - n, lo, hi); if (optForkPtr || n * (hi - lo) > 60000 || hi - lo > optIteRange) so = VC(concretize(so, 64)); else symSrc = true; }
  if (dof.e) dof = VC(concretize(dof, 64));
  Obj* so_ = S->mem.get(sid); so_->refc++; // keep source alive & unchanged
  Obj* o = S->mem.getW(did); u64 of = dof.c;
  if (!symSrc) {
    if (!so_->nsym && !o->nsym) memmove(o->data + of, so_->data + so.c, n);
    else if (so_ == o) { std::vector<E> t(n); for (u64 i = 0; i < n; i++) t[i] = getB(so_, so.c + i); for (u64 i = 0; i < n; i++) setSym(o, of + i, t[i]); }
    else for (u64 i = 0; i < n; i++) { if (so_->sym && so_->sym[so.c + i]) setSym(o, of + i, so_->sym[so.c + i]); else setConc(o, of + i, so_->data[so.c + i]); }
  } else {
    std::vector<E> t(n); for (u64 i = 0; i < n; i++) t[i] = iteTree(so_, so.e, lo, hi, 1, i);
    for (u64 i = 0; i < n; i++) setSym(o, of + i, t[i]);
  }
  decObj(so_);
}
static void setMem(const Val& d, const Val& v, u64 n) {
  if (n == 0) return;
  Val dof; u64 did; resolve(d, n, true, dof, did);
  if (dof.e) dof = VC(concretize(dof, 64));
  Obj* o = S->mem.getW(did);
  if (!v.e && !o->nsym) { memset(o->data + dof.c, (uint8_t)v.c, n); return; }
  E b = toE(v, 8); if (b->width != 8) b = mkExtract(b, 0, 8);
  for (u64 i = 0; i < n; i++) setSym(o, dof.c + i, b);
}
static u64 allocObj(u64 size, int kind) {
  return addrOf(S->mem.add(newObj(size, kind, kind == OK_STACK ? 0xAA : 0xBE)));
}
static std::string readStr(u64 a) {
  std::string r; Obj* o = S->mem.get(a >> 32); if (!o || o == &FREED) return "?";
  for (u64 i = a & 0xffffffff; i < o->size && o->data[i]; i++) r += (char)o->data[i]; return r;
}

// ---------------------------------------------------------------- constants
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t); }
static unsigned flatCount(Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : s->elements()) n += flatCount(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * flatCount(a->getElementType());
  if (t->isVoidTy()) return 0;
  return 1;
}
static void flatTypes(Type* t, std::vector<Type*>& out, std::vector<u64>* offs = nullptr, u64 base = 0) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatTypes(s->getElementType(i), out, offs, base + sl->getElementOffset(i)); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), out, offs, base + i * es); return; }
  out.push_back(t); if (offs) offs->push_back(base);
}
static u64 funcAddr(Function* F);
static u64 globalAddr(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { const Constant* c = ga->getAliasee()->stripPointerCasts(); return globalAddr(cast<GlobalValue>(c)); }
  if (auto* F = dyn_cast<Function>(g)) return funcAddr(const_cast<Function*>(F));
  auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "psx: no address for %s\n", g->getName().str().c_str()); abort(); }
  return it->second;
}
static u128 constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return ci->getZExtValue(); return ((u128)ci->getValue().extractBitsAsZExtValue(64 > ci->getBitWidth() - 64 ? ci->getBitWidth() - 64 : 64, 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getLimitedValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = bitsOf(ce->getType());
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return (u64)constVal(ce->getOperand(0)) + (u64)off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constVal(ce->getOperand(0)) & maskw(w);
      case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(w);
      case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(w);
      case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(w);
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "psx: constant %s\n", os.str().c_str()); abort();
}
static void initBytes(const Constant* c, uint8_t* p) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), p + sl->getElementOffset(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), p + i * es); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) { u64 v = (u64)constVal(cd->getElementAsConstant(i)); memcpy(p + i * es, &v, es); } return; }
  u128 v = constVal(c); u64 sz = DL->getTypeStoreSize(c->getType()); memcpy(p, &v, sz > 16 ? 16 : sz);
}
static u64 funcAddr(Function* F) {
  auto it = cfuncs.find(F); CFunc* f;
  if (it != cfuncs.end()) f = it->second; else abort();
  return f->addr;
}

// ---------------------------------------------------------------- function compilation
struct ExtEntry { const char* name; int (*fn)(CInst&); };
static int findExt(const std::string& n);
static void compileFn(CFunc* f) {
  f->compiled = true; Function* F = f->F;
  std::unordered_map<const Value*, int32_t> slot; uint32_t ns = 0;
  for (auto& a : F->args()) { slot[&a] = ns; ns += flatCount(a.getType()); }
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += flatCount(I.getType()); }
  // temp area for phi moves
  f->nslots = ns;
  auto mkop = [&](const Value* v) -> Op {
    Op o{-1, 0, nullptr};
    if (auto* c = dyn_cast<Constant>(v)) {
      if (flatCount(c->getType()) != 1) { o.slot = -2; return o; }
      u128 x = constVal(c); unsigned w = bitsOf(c->getType());
      if (w > 64) o.e = mkConst(w, x); else o.c = (u64)x; return o;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
    o.slot = slot.at(v); return o;
  };
  auto mkops = [&](const Value* v, std::vector<Op>& out) { // flattened
    unsigned n = flatCount(v->getType());
    if (n == 1) { out.push_back(mkop(v)); return; }
    if (auto* c = dyn_cast<Constant>(v)) {
      std::function<void(const Constant*)> rec = [&](const Constant* k) {
        unsigned m = flatCount(k->getType());
        if (m == 1 && !k->getType()->isAggregateType()) { out.push_back(mkop(k)); return; }
        Type* t = k->getType(); unsigned ne = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < ne; i++) rec(k->getAggregateElement(i));
      };
      rec(c); return;
    }
    int32_t s = slot.at(v); for (unsigned i = 0; i < n; i++) out.push_back(Op{(int32_t)(s + i), 0, nullptr});
  };
  std::unordered_map<const BasicBlock*, uint32_t> start; 
  // first pass: number instructions
  uint32_t pc = 0; for (auto& bb : *F) { start[&bb] = pc; for (auto& I : bb) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
  f->code.reserve(pc);
  auto mkedge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
    Edge e; e.pc = start[to];
    for (auto& phi : to->phis()) {
      const Value* in = phi.getIncomingValueForBlock(from); unsigned n = flatCount(phi.getType()); std::vector<Op> ops; mkops(in, ops);
      for (unsigned i = 0; i < n; i++) e.moves.push_back({slot[&phi] + (int32_t)i, ops[i]});
    }
    f->edges.push_back(std::move(e)); return f->edges.size() - 1;
  };
  auto aggIndex = [&](Type* t, ArrayRef<unsigned> idx) { unsigned off = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += flatCount(s->getElementType(k)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); off += i * flatCount(a->getElementType()); t = a->getElementType(); } } return off; };
  for (auto& bb : *F) for (auto& I : bb) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    CInst c; c.op = C_UNSUP; c.sub = 0; c.w = c.w2 = 0; c.dst = -1; c.ndst = 0; c.a = c.b = c.c = Op{-1, 0, nullptr}; c.x = c.y = 0; c.I = &I; c.callee = nullptr; c.ext = -1; c.covered = false;
    Type* t = I.getType(); if (!t->isVoidTy()) { c.dst = slot[&I]; c.ndst = flatCount(t); if (!t->isAggregateType()) c.w = bitsOf(t); }
    bool vec = t->isVectorTy(); for (auto& o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
    if (vec) { f->code.push_back(c); continue; }
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      c.a = mkop(b->getOperand(0)); c.b = mkop(b->getOperand(1)); c.sub = b->getOpcode(); c.op = t->isFloatingPointTy() ? C_FBIN : C_BIN;
    } else if (auto* b = dyn_cast<ICmpInst>(&I)) { c.op = C_CMP; c.sub = b->getPredicate(); c.w2 = bitsOf(b->getOperand(0)->getType()); c.a = mkop(b->getOperand(0)); c.b = mkop(b->getOperand(1)); }
    else if (auto* b = dyn_cast<FCmpInst>(&I)) { c.op = C_FCMP; c.sub = b->getPredicate(); c.w2 = bitsOf(b->getOperand(0)->getType()); c.a = mkop(b->getOperand(0)); c.b = mkop(b->getOperand(1)); }
    else if (isa<LoadInst>(I)) { c.op = C_LOAD; c.a = mkop(I.getOperand(0)); if (c.ndst != 1 || t->isAggregateType()) { std::vector<Type*> ts; std::vector<u64> os; flatTypes(t, ts, &os); for (size_t i = 0; i < ts.size(); i++) { c.aux.push_back(os[i]); c.aux.push_back(bitsOf(ts[i])); } } }
    else if (isa<StoreInst>(I)) { c.op = C_STORE; c.b = mkop(I.getOperand(1)); Type* vt = I.getOperand(0)->getType(); if (vt->isAggregateType()) { mkops(I.getOperand(0), c.args); std::vector<Type*> ts; std::vector<u64> os; flatTypes(vt, ts, &os); for (size_t i = 0; i < ts.size(); i++) { c.aux.push_back(os[i]); c.aux.push_back(bitsOf(ts[i])); } } else { c.a = mkop(I.getOperand(0)); c.w = bitsOf(vt); } }
    else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      c.op = C_GEP; c.a = mkop(g->getPointerOperand()); u64 base = 0;
      for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
        Value* idx = gti.getOperand();
        if (StructType* s = gti.getStructTypeOrNull()) { base += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(idx)) { base += (u64)(ci->getSExtValue() * (int64_t)sz); continue; }
        c.args.push_back(mkop(idx)); c.aux.push_back(sz); c.aux.push_back(bitsOf(idx->getType()));
      }
      c.b.c = base;
    } else if (auto* al = dyn_cast<AllocaInst>(&I)) { c.op = C_ALLOCA; c.a = mkop(al->getArraySize()); c.aux.push_back(DL->getTypeAllocSize(al->getAllocatedType())); }
    else if (auto* br = dyn_cast<BranchInst>(&I)) {
      if (br->isConditional()) { c.op = C_BR; c.a = mkop(br->getCondition()); c.x = mkedge(&bb, br->getSuccessor(0)); c.y = mkedge(&bb, br->getSuccessor(1)); }
      else { c.op = C_JMP; c.x = mkedge(&bb, br->getSuccessor(0)); }
    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      c.op = C_SWITCH; c.a = mkop(sw->getCondition()); c.w2 = bitsOf(sw->getCondition()->getType()); c.x = mkedge(&bb, sw->getDefaultDest());
      std::map<const BasicBlock*, uint32_t> ed; for (auto& cs : sw->cases()) { c.aux.push_back(cs.getCaseValue()->getZExtValue()); auto it = ed.find(cs.getCaseSuccessor()); if (it == ed.end()) it = ed.emplace(cs.getCaseSuccessor(), mkedge(&bb, cs.getCaseSuccessor())).first; c.aux.push_back(it->second); }
    } else if (auto* r = dyn_cast<ReturnInst>(&I)) { c.op = C_RET; if (r->getReturnValue()) mkops(r->getReturnValue(), c.args); }
    else if (isa<UnreachableInst>(I)) c.op = C_UNREACH;
    else if (isa<ResumeInst>(I)) { c.op = C_RESUME; mkops(I.getOperand(0), c.args); }
    else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
      c.op = C_LPAD; c.sub = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { c.aux.push_back(1); c.aux.push_back((u64)constVal(lp->getClause(i))); } else { c.aux.push_back(2); c.aux.push_back(0); } }
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
      c.op = C_EXTRACTV; std::vector<Op> ops; mkops(ev->getAggregateOperand(), ops); unsigned off = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); for (unsigned i = 0; i < c.ndst; i++) c.args.push_back(ops[off + i]);
    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      c.op = C_INSERTV; mkops(iv->getAggregateOperand(), c.args); unsigned off = aggIndex(iv->getAggregateOperand()->getType(), iv->getIndices()); std::vector<Op> v; mkops(iv->getInsertedValueOperand(), v); for (size_t i = 0; i < v.size(); i++) c.args[off + i] = v[i];
    } else if (isa<SelectInst>(I)) { c.op = C_SELECT; c.a = mkop(I.getOperand(0)); if (c.ndst == 1) { c.b = mkop(I.getOperand(1)); c.c = mkop(I.getOperand(2)); } else { mkops(I.getOperand(1), c.args); mkops(I.getOperand(2), c.args); } }
    else if (auto* ci = dyn_cast<CastInst>(&I)) {
      c.a = mkop(ci->getOperand(0)); c.w2 = bitsOf(ci->getSrcTy());
      switch (ci->getOpcode()) {
        case Instruction::Trunc: c.op = C_TRUNC; break; case Instruction::ZExt: c.op = C_ZEXT; break; case Instruction::SExt: c.op = C_SEXT; break;
        case Instruction::PtrToInt: c.op = c.w < 64 ? C_TRUNC : C_COPY; break; case Instruction::IntToPtr: c.op = c.w2 < 64 ? C_ZEXT : C_COPY; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: c.op = C_COPY; break;
        default: c.op = C_FCAST; c.sub = ci->getOpcode(); break;
      }
    } else if (isa<FreezeInst>(I)) { c.op = C_COPY; c.a = mkop(I.getOperand(0)); if (c.ndst != 1) c.op = C_UNSUP; }
    else if (isa<UnaryOperator>(I) && I.getOpcode() == Instruction::FNeg) { c.op = C_FNEG; c.a = mkop(I.getOperand(0)); }
    else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) { c.op = C_CMPXCHG; c.a = mkop(x->getPointerOperand()); c.b = mkop(x->getCompareOperand()); c.c = mkop(x->getNewValOperand()); c.w = bitsOf(x->getCompareOperand()->getType()); }
    else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) { c.op = C_RMW; c.sub = x->getOperation(); c.a = mkop(x->getPointerOperand()); c.b = mkop(x->getValOperand()); }
    else if (isa<FenceInst>(I)) c.op = C_NOP;
    else if (auto* cb = dyn_cast<CallBase>(&I)) {
      c.op = isa<InvokeInst>(I) ? C_INVOKE : C_CALL;
      for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) continue; mkops(a, c.args); }
      for (auto& a : cb->args()) if (!a->getType()->isMetadataTy()) { c.aux.push_back(a->getType()->isAggregateType() ? 0 : bitsOf(a->getType())); }
      c.a = mkop(cb->getCalledOperand());
      if (auto* inv = dyn_cast<InvokeInst>(&I)) { c.x = mkedge(&bb, inv->getNormalDest()); c.y = mkedge(&bb, inv->getUnwindDest()); }
      if (Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
        c.callee = cfuncs.at(cf);
        if (cf->isIntrinsic()) {
          switch (cf->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: c.op = C_NOP; break;
            default: break;
          }
        }
      }
    }
    f->code.push_back(std::move(c));
  }
}

// ---------------------------------------------------------------- registers
static Val* R; // current frame registers
static inline Val get(const Op& o) { if (o.slot >= 0) return R[o.slot]; return Val{o.c, o.e}; }
static inline void setR(const CInst& c, const Val& v) { R[c.dst] = v; }
static void bindR() { R = S->regs.data() + S->fr.back().regBase; }

static void takeEdge(Frame& fr, uint32_t ei) {
  Edge& e = fr.f->edges[ei];
  size_t n = e.moves.size();
  if (n == 1) R[e.moves[0].first] = get(e.moves[0].second);
  else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(e.moves[i].second); for (size_t i = 0; i < n; i++) R[e.moves[i].first] = t[i]; }
  fr.pc = e.pc;
}
static void popFrame() {
  Frame& f = S->fr.back(); for (u64 a : f.allocas) S->mem.release(a); S->regs.resize(f.regBase); S->fr.pop_back();
  if (!S->fr.empty()) bindR();
}
static void pushFrame(CFunc* f, const std::vector<Val>& args) {
  if (!f->compiled) compileFn(f);
  f->entered = true;
  if (S->fr.size() > 6000) { reportError("stack-overflow", "call depth over 6000", S->model); throw Kill{K_ERR}; }
  Frame fr; fr.f = f; fr.pc = 0; fr.regBase = S->regs.size(); S->fr.push_back(fr); S->regs.resize(fr.regBase + f->nslots, Val{0, nullptr}); bindR();
  for (size_t i = 0; i < args.size() && i < f->nslots; i++) R[i] = args[i];
}
static void afterCall(CInst& c) { Frame& f = S->fr.back(); if (c.op == C_INVOKE) takeEdge(f, c.x); else f.pc++; }

// ---------------------------------------------------------------- exceptions
static std::unordered_map<u64, std::vector<u64>> tiBases; static std::map<u64, std::string> tiName; static std::map<u64, u64> tiIds;
static u64 tiId(u64 a) { auto it = tiIds.find(a); if (it != tiIds.end()) return it->second; u64 id = tiIds.size() + 1; tiIds[a] = id; return id; }
static bool tiDerives(u64 t, u64 b) { if (t == b) return true; auto it = tiBases.find(t); if (it == tiBases.end()) return false; for (u64 x : it->second) if (tiDerives(x, b)) return true; return false; }
static std::string tiStr(u64 t) { auto it = tiName.find(t); return it == tiName.end() ? "?" : demang(it->second); }
static u64 excTi(u64 exc) { for (size_t i = S->excType.size(); i-- > 0;) if (S->excType[i].first == exc) return S->excType[i].second; return 0; }
static void unwind(u64 exc) { // from the current frame's current instruction
  u64 ti = excTi(exc);
  std::string stk; if (optVerbose) stk = stackStr();
  std::string locAtThrow = libLoc();
  while (!S->fr.empty()) {
    Frame& f = S->fr.back(); CInst& c = f.f->code[f.pc];
    if (c.op == C_INVOKE) {
      uint32_t tpc = f.f->edges[c.y].pc; CInst& lp = f.f->code[tpc];
      bool match = lp.sub;
      for (size_t i = 0; !match && i < lp.aux.size(); i += 2) if (lp.aux[i] == 1 && (lp.aux[i + 1] == 0 || tiDerives(ti, lp.aux[i + 1]))) match = true; else if (lp.aux[i] == 2) match = true;
      if (match) { S->curExc = exc; takeEdge(f, c.y); return; }
    }
    if (S->fr.size() == 1) { reportError("uncaught-exception", tiStr(ti) + " thrown at " + locAtThrow, S->model); throw Kill{K_ERR}; }
    popFrame();
  }
}

// ---------------------------------------------------------------- externals
#define ARG(i) get(c.args[i])
static u64 concArg(CInst& c, unsigned i, unsigned w = 64) { Val v = ARG(i); return concretize(v, w); }
static u64 boundedSize(const Val& v) { // allocation sizes
  if (v.e) { E big = mkUlt(mkConst(64, optMaxAlloc), v.e); if (decide(big)) { boundedMap["alloc " + libLoc()]++; throw Kill{K_BOUND}; } u64 x = concretize(v, 64); return x; }
  if (v.c > optMaxAlloc) { boundedMap["alloc " + libLoc()]++; throw Kill{K_BOUND}; }
  return v.c;
}
// each returns: 0 = done, advance; 1 = control already transferred
static int x_new(CInst& c) { u64 n = boundedSize(ARG(0)); setR(c, VC(allocObj(n, OK_HEAP))); return 0; }
static int x_calloc(CInst& c) { u64 a = boundedSize(ARG(0)), b = boundedSize(ARG(1)); u64 p = allocObj(a * b, OK_HEAP); setMem(VC(p), VC(0), a * b); setR(c, VC(p)); return 0; }
static int x_free(CInst& c) {
  u64 p = concArg(c, 0); if (!p) return 0; u64 id = p >> 32; Obj* o = S->mem.get(id);
  if (!o || o == &FREED || o->kind != OK_HEAP || (p & 0xffffffff)) { reportError(o == &FREED ? "double-free" : "bad-free", "", S->model); throw Kill{K_ERR}; }
  S->mem.release(id); return 0;
}
static int x_memcpy(CInst& c) { u64 n = concArg(c, 2); copyMem(ARG(0), ARG(1), n, false); if (c.dst >= 0) setR(c, ARG(0)); return 0; }
static int x_wmemcpy(CInst& c) { u64 n = concArg(c, 2); copyMem(ARG(0), ARG(1), n * 4, false); if (c.dst >= 0) setR(c, ARG(0)); return 0; }
static int x_wmemset(CInst& c) { u64 n = concArg(c, 2); Val v = ARG(1); for (u64 i = 0; i < n; i++) storeMem(VE(mkAdd(toE(ARG(0), 64), mkConst(64, 4 * i))), v, 32); if (c.dst >= 0) setR(c, ARG(0)); return 0; }
static int x_memset(CInst& c) { u64 n = concArg(c, 2); setMem(ARG(0), ARG(1), n); if (c.dst >= 0) setR(c, ARG(0)); return 0; }
static void readSeq(const Val& p, u64 n, unsigned esz, std::vector<E>& out) { // n elements of esz bytes
  if (!n) return; Val off; u64 id; resolve(p, n * esz, false, off, id); u64 lo = 0, hi = 0; if (off.e) { Obj* o = S->mem.get(id); offRange(off.e, o->size - n * esz, lo, hi); if (optForkPtr || hi - lo > optIteRange) off = VC(concretize(off, 64)); }
  Obj* o = S->mem.get(id);
  for (u64 i = 0; i < n; i++) { if (!off.e) out.push_back(loadAt(o, off.c + i * esz, esz)); else out.push_back(iteTree(o, mkAdd(off.e, mkConst(64, i * esz)), lo + i * esz, hi + i * esz, esz)); }
}
static int cmpSeq(CInst& c, unsigned esz, bool sgn) {
  u64 n = concArg(c, 2); std::vector<E> a, b; readSeq(ARG(0), n, esz, a); readSeq(ARG(1), n, esz, b);
  E r = mkConst(32, 0); for (u64 i = n; i-- > 0;) { E lt = sgn ? mkSlt(a[i], b[i]) : mkUlt(a[i], b[i]); r = mkIte(mkEq(a[i], b[i]), r, mkIte(lt, mkConst(32, 0xffffffff), mkConst(32, 1))); }
  setR(c, VE(r)); return 0;
}
static int x_memcmp(CInst& c) { return cmpSeq(c, 1, false); }
static int x_wmemcmp(CInst& c) { return cmpSeq(c, 4, true); }
static int strlenN(CInst& c, unsigned esz) { // forks per possible length
  Val p = ARG(0); u64 n = 0;
  if (p.e) p = VC(concretize(p, 64));
  for (;; n++) { Val v = loadMem(VC(p.c + n * esz), esz * 8); if (!v.e) { if (!v.c) break; else continue; } if (decide(mkEq(v.e, mkConst(esz * 8, 0)))) break; }
  setR(c, VC(n)); return 0;
}
static int x_strlen(CInst& c) { return strlenN(c, 1); }
static int x_wcslen(CInst& c) { return strlenN(c, 4); }
static int chrN(CInst& c, unsigned esz) {
  u64 n = concArg(c, 2); Val p = ARG(0); if (p.e) p = VC(concretize(p, 64)); Val ch = ARG(1); E ce = mkExtract(toE(ch, 32), 0, esz * 8);
  for (u64 i = 0; i < n; i++) { Val v = loadMem(VC(p.c + i * esz), esz * 8); if (decide(mkEq(toE(v, esz * 8), ce))) { setR(c, VC(p.c + i * esz)); return 0; } }
  setR(c, VC(0)); return 0;
}
static int x_memchr(CInst& c) { return chrN(c, 1); }
static int x_wmemchr(CInst& c) { return chrN(c, 4); }
static int x_strcmp(CInst& c) {
  Val a = ARG(0), b = ARG(1); u64 pa = concretize(a, 64), pb = concretize(b, 64);
  for (u64 i = 0;; i++) { E x = toE(loadMem(VC(pa + i), 8), 8), y = toE(loadMem(VC(pb + i), 8), 8);
    if (!decide(mkEq(x, y))) { setR(c, VE(mkIte(mkUlt(x, y), mkConst(32, 0xffffffff), mkConst(32, 1)))); return 0; }
    if (decide(mkEq(x, mkConst(8, 0)))) { setR(c, VC(0)); return 0; } }
}
static int x_exc_alloc(CInst& c) { u64 n = concArg(c, 0); setR(c, VC(allocObj(n, OK_EXC))); return 0; }
static int x_nop(CInst& c) { return 0; }
static int x_ret0(CInst& c) { if (c.dst >= 0) setR(c, VC(0)); return 0; }
static int x_ret1(CInst& c) { if (c.dst >= 0) setR(c, VC(1)); return 0; }
static int x_throw(CInst& c) { u64 e = ARG(0).c, t = ARG(1).c; S->excType.push_back({e, t}); unwind(e); return 1; }
static int x_begin_catch(CInst& c) { u64 e = ARG(0).c; S->caught.push_back(e); setR(c, VC(e)); return 0; }
static int x_end_catch(CInst& c) { if (!S->caught.empty()) S->caught.pop_back(); return 0; }
static int x_rethrow(CInst& c) { if (S->caught.empty()) { reportError("terminate", "rethrow without exception", S->model); throw Kill{K_ERR}; } u64 e = S->caught.back(); unwind(e); return 1; }
static int x_terminate(CInst& c) { reportError("terminate", "std::terminate/abort called", S->model); throw Kill{K_ERR}; }
static int x_glibcxx_fail(CInst& c) { reportError("library-assert", "standard library precondition: " + (c.args.size() > 3 ? readStr(ARG(3).c) : std::string()), S->model); throw Kill{K_ERR}; }
static int x_guard_acq(CInst& c) { Val v = loadMem(ARG(0), 8); setR(c, VC(v.c ? 0 : 1)); return 0; }
static int x_guard_rel(CInst& c) { storeMem(ARG(0), VC(1), 8); return 0; }
static int x_typeid_for(CInst& c) { setR(c, VC(tiId(ARG(0).c))); return 0; }
static int x_stackSave(CInst& c) { if (c.dst >= 0) setR(c, VC(0)); return 0; }
static int x_dyncast(CInst& c) {
  // src, srcType, dstType, hint: single inheritance only
  u64 p = concArg(c, 0); if (!p) { setR(c, VC(0)); return 0; }
  u64 vt = loadMem(VC(p), 64).c; u64 ti = loadMem(VC(vt - 8), 64).c; u64 dst = ARG(2).c; setR(c, VC(tiDerives(ti, dst) ? p : 0)); return 0;
}
// symbolic API
static int x_sym_make(CInst& c) {
  u64 p = concArg(c, 0), n = concArg(c, 1); std::string nm = readStr(ARG(2).c);
  SymIn in; in.name = nm; in.var0 = S->nextVar; in.n = n; S->nextVar += n; S->ins.push_back(in);
  Val off; u64 id; if (!n) return 0; resolve(VC(p), n, true, off, id); Obj* o = S->mem.getW(id);
  if (S->model->v.size() < S->nextVar) { auto m = std::make_shared<Model>(*S->model); m->id = newModelId(); m->v.resize(S->nextVar, 0); S->model = m; }
  for (u64 i = 0; i < n; i++) setSym(o, off.c + i, mkVar(in.var0 + i));
  return 0;
}
static int x_sym_assume(CInst& c) {
  Val v = ARG(0); if (!v.e) { if (!v.c) throw Kill{K_ASSUME}; return 0; }
  E b = v.e->width == 1 ? v.e : mkNot(mkEq(v.e, mkConst(v.e->width, 0)));
  if (isFalse(b)) throw Kill{K_ASSUME};
  ModelP m = feasible(b); if (!m) throw Kill{K_ASSUME};
  S->model = m; if (known(*S, b) != 1) addCon(*S, b); return 0;
}
static int x_sym_assert(CInst& c) {
  Val v = ARG(0); st.asserts++; S->reachedAssert++;
  std::string msg = readStr(ARG(1).c);
  reach["assert:" + msg]++;
  if (!v.e) { if (!v.c) { reportError("assert", msg, S->model); throw Kill{K_ERR}; } return 0; }
  E b = v.e->width == 1 ? v.e : mkNot(mkEq(v.e, mkConst(v.e->width, 0)));
  if (isTrue(b)) return 0;
  if (isFalse(b)) { reportError("assert", msg, S->model); throw Kill{K_ERR}; }
  st.assertQueries++;
  if (ModelP m = feasible(mkNot(b))) { reportError("assert", msg, m); }
  else return 0; // implied
  ModelP m2 = feasible(b); if (!m2) throw Kill{K_ERR}; S->model = m2; addCon(*S, b); return 0;
}
static int x_sym_reach(CInst& c) { std::string r = readStr(ARG(0).c); reach[r]++; if (!optTrace.empty()) S->trace.push_back(r); return 0; }
static int x_sym_concretize(CInst& c) { u64 v = concArg(c, 0); setR(c, VC(v)); return 0; }
static int x_sym_ite(CInst& c) { E b = toE(ARG(0), 32); E cond = mkNot(mkEq(b, mkConst(b->width, 0))); setR(c, VE(mkIte(cond, toE(ARG(1), 64), toE(ARG(2), 64)))); return 0; }
static int x_sym_is_symbolic(CInst& c) { setR(c, VC(ARG(0).e ? 1 : 0)); return 0; }
static int x_sym_print(CInst& c) { Val v = ARG(1); fprintf(stderr, "[psx] %s = %s\n", readStr(ARG(0).c).c_str(), v.e ? exprStr(v.e, 12).c_str() : std::to_string(v.c).c_str()); return 0; }
static int x_sym_done(CInst& c) { throw Kill{K_DONE}; }
static int x_sym_bound(CInst& c) { boundedMap["harness " + readStr(ARG(0).c)]++; throw Kill{K_BOUND}; }
static int x_sym_engine(CInst& c) { setR(c, VC(1)); return 0; }
static int x_sym_forkptr(CInst& c) { optForkPtr = ARG(0).c != 0; return 0; }
static int x_sym_eqmem(CInst& c) { // 1-bit-ish result without forking: all bytes equal
  u64 n = concArg(c, 2); std::vector<E> a, b; readSeq(ARG(0), n, 1, a); readSeq(ARG(1), n, 1, b); E r = mkConst(1, 1); for (u64 i = 0; i < n; i++) r = mkAnd(mkEq(a[i], b[i]), r); setR(c, VE(mkZExt(r, 32))); return 0;
}
static int x_exit(CInst& c) { throw Kill{K_DONE}; }
static double asD(const Val& v, unsigned w) { if (v.e) { unsupMap["symbolic floating point " + libLoc()]++; throw Kill{K_UNSUP}; } if (w == 32) { float f; uint32_t x = v.c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return VC(x); } u64 x; memcpy(&x, &d, 8); return VC(x); }
static u64 fconc(CInst& c, unsigned i, unsigned w) { return concretize(ARG(i), w); }
#define LM1(n, f) static int x_##n(CInst& c) { setR(c, fromD(f(asD(VC(fconc(c, 0, c.w)), c.w)), c.w)); return 0; }
LM1(log, log) LM1(log2, log2) LM1(log10, log10) LM1(floor, floor) LM1(ceil, ceil) LM1(fabs, fabs) LM1(exp2, exp2) LM1(sqrt, sqrt) LM1(trunc, trunc) LM1(round, round) LM1(rint, rint) LM1(exp, exp) LM1(log1p, log1p)
#define LM2(n, f) static int x_##n(CInst& c) { double a = asD(VC(fconc(c, 0, c.w)), c.w), b = asD(VC(fconc(c, 1, c.w)), c.w); setR(c, fromD(f(a, b), c.w)); return 0; }
LM2(fmin, fmin) LM2(fmax, fmax) LM2(copysign, copysign) LM2(fmod, fmod)
static int x_fmuladd(CInst& c) { double a = asD(VC(fconc(c, 0, c.w)), c.w), b = asD(VC(fconc(c, 1, c.w)), c.w), d = asD(VC(fconc(c, 2, c.w)), c.w); setR(c, fromD(a * b + d, c.w)); return 0; }
static int x_pow(CInst& c) { setR(c, fromD(pow(asD(VC(fconc(c, 0, c.w)), c.w), asD(VC(fconc(c, 1, c.w)), c.w)), c.w)); return 0; }
static int x_ldexp(CInst& c) { setR(c, fromD(ldexp(asD(VC(fconc(c, 0, c.w)), c.w), (int)fconc(c, 1, 32)), c.w)); return 0; }

static int x_umax(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); setR(c, VE(mkIte(mkUlt(a, b), b, a))); return 0; }
static int x_umin(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); setR(c, VE(mkIte(mkUlt(a, b), a, b))); return 0; }
static int x_smax(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); setR(c, VE(mkIte(mkSlt(a, b), b, a))); return 0; }
static int x_smin(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); setR(c, VE(mkIte(mkSlt(a, b), a, b))); return 0; }
static int x_iabs(CInst& c) { E a = toE(ARG(0), c.w); setR(c, VE(mkIte(mkSlt(a, mkConst(c.w, 0)), mkSub(mkConst(c.w, 0), a), a))); return 0; }
static int x_usubsat(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); setR(c, VE(mkIte(mkUlt(a, b), mkConst(c.w, 0), mkSub(a, b)))); return 0; }
static int x_uaddsat(CInst& c) { E a = toE(ARG(0), c.w), b = toE(ARG(1), c.w); E s = mkAdd(a, b); setR(c, VE(mkIte(mkUlt(s, a), mkConst(c.w, maskw(c.w)), s))); return 0; }
static int x_fsh(CInst& c, bool left) { unsigned w = c.w; E a = toE(ARG(0), w), b = toE(ARG(1), w), s = mkURem(toE(ARG(2), w), mkConst(w, w)); E z = mkConst(w, 0);
  E l, r; if (left) { l = mkShl(a, s); r = mkLShr(b, mkSub(mkConst(w, w), s)); setR(c, VE(mkIte(mkEq(s, z), a, mkOr(l, r)))); } else { l = mkShl(a, mkSub(mkConst(w, w), s)); r = mkLShr(b, s); setR(c, VE(mkIte(mkEq(s, z), b, mkOr(l, r)))); } return 0; }
static int x_fshl(CInst& c) { return x_fsh(c, true); } static int x_fshr(CInst& c) { return x_fsh(c, false); }
static int x_bswap(CInst& c) { E a = toE(ARG(0), c.w), r = nullptr; for (unsigned i = 0; i < c.w; i += 8) { E b = mkByte(a, i, 8); r = r ? mkConcat(r, b) : b; } setR(c, VE(r)); return 0; }
static int x_ctpop(CInst& c) { E a = toE(ARG(0), c.w); E r = mkConst(c.w, 0); for (unsigned i = 0; i < c.w; i++) r = mkAdd(r, mkZExt(mkByte(a, i, 1), c.w)); setR(c, VE(r)); return 0; }
static int x_ctlz(CInst& c) { E a = toE(ARG(0), c.w); E r = mkConst(c.w, c.w); for (unsigned i = 0; i < c.w; i++) r = mkIte(mkByte(a, i, 1), mkConst(c.w, c.w - 1 - i), r); setR(c, VE(r)); return 0; }
static int x_cttz(CInst& c) { E a = toE(ARG(0), c.w); E r = mkConst(c.w, c.w); for (unsigned i = c.w; i-- > 0;) r = mkIte(mkByte(a, i, 1), mkConst(c.w, i), r); setR(c, VE(r)); return 0; }
static int x_ovf(CInst& c, int k) { unsigned w = c.aux[0]; E a = toE(ARG(0), w), b = toE(ARG(1), w), r, o;
  if (k == 0) { r = mkAdd(a, b); o = mkUlt(r, a); }
  else if (k == 1) { r = mkSub(a, b); o = mkUlt(a, b); }
  else { E p = mkMul(mkZExt(a, 2 * w > 128 ? 128 : 2 * w), mkZExt(b, 2 * w > 128 ? 128 : 2 * w)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkExtract(p, w, w), mkConst(w, 0))); }
  R[c.dst] = VE(r); R[c.dst + 1] = VE(o); return 0; }
static int x_uaddo(CInst& c) { return x_ovf(c, 0); } static int x_usubo(CInst& c) { return x_ovf(c, 1); } static int x_umulo(CInst& c) { return x_ovf(c, 2); }
static int x_isconst(CInst& c) { setR(c, VC(0)); return 0; }
static int x_expect(CInst& c) { setR(c, ARG(0)); return 0; }
static int x_objsize(CInst& c) { setR(c, VC(~0ull)); return 0; }
static int x_ucmp(CInst& c) { return 0; }

static const ExtEntry exts[] = {
  {"_Znwm", x_new}, {"_Znam", x_new}, {"malloc", x_new}, {"_ZnwmRKSt9nothrow_t", x_new}, {"_ZnamRKSt9nothrow_t", x_new}, {"calloc", x_calloc},
  {"_ZdlPv", x_free}, {"_ZdaPv", x_free}, {"_ZdlPvm", x_free}, {"_ZdaPvm", x_free}, {"free", x_free},
  {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"wmemcpy", x_wmemcpy}, {"wmemmove", x_wmemcpy}, {"memset", x_memset}, {"memcmp", x_memcmp}, {"bcmp", x_memcmp}, {"wmemcmp", x_wmemcmp}, {"wmemset", x_wmemset},
  {"strlen", x_strlen}, {"wcslen", x_wcslen}, {"memchr", x_memchr}, {"wmemchr", x_wmemchr}, {"strcmp", x_strcmp},
  {"__cxa_allocate_exception", x_exc_alloc}, {"__cxa_free_exception", x_nop}, {"__cxa_throw", x_throw}, {"__cxa_begin_catch", x_begin_catch}, {"__cxa_end_catch", x_end_catch}, {"__cxa_rethrow", x_rethrow},
  {"__cxa_get_exception_ptr", x_expect},
  {"_ZSt9terminatev", x_terminate}, {"abort", x_terminate}, {"__assert_fail", x_terminate}, {"__cxa_pure_virtual", x_terminate}, {"__stack_chk_fail", x_terminate}, {"llvm.trap", x_terminate}, {"llvm.ubsantrap", x_terminate},
  {"_ZSt21__glibcxx_assert_failPKciS0_S0_", x_glibcxx_fail}, {"__cxa_guard_acquire", x_guard_acq}, {"__cxa_guard_release", x_guard_rel}, {"__cxa_guard_abort", x_nop}, {"__cxa_atexit", x_ret0}, {"atexit", x_ret0},
  {"llvm.eh.typeid.for", x_typeid_for}, {"llvm.eh.typeid.for.p0", x_typeid_for}, {"__dynamic_cast", x_dyncast}, {"exit", x_exit}, {"_ZNSt8ios_base4InitC1Ev", x_nop}, {"_ZNSt8ios_base4InitD1Ev", x_nop},
  {"sym_make", x_sym_make}, {"sym_assume_", x_sym_assume}, {"sym_assert_", x_sym_assert}, {"sym_reach", x_sym_reach}, {"sym_concretize", x_sym_concretize}, {"sym_is_symbolic", x_sym_is_symbolic}, {"sym_print", x_sym_print},
  {"sym_done", x_sym_done}, {"sym_bound", x_sym_bound}, {"sym_engine", x_sym_engine}, {"sym_forkptr", x_sym_forkptr}, {"sym_eqmem", x_sym_eqmem}, {"sym_ite", x_sym_ite},
  {"log", x_log}, {"log2", x_log2}, {"log10", x_log10}, {"pow", x_pow}, {"powf", x_pow}, {"exp2", x_exp2}, {"exp2f", x_exp2}, {"floor", x_floor}, {"ceil", x_ceil}, {"ldexp", x_ldexp}, {"ldexpf", x_ldexp}, {"logf", x_log}, {"log2f", x_log2}, {"sqrt", x_sqrt}, {"trunc", x_trunc}, {"round", x_round}, {"exp", x_exp}, {"log1p", x_log1p}, {"fmin", x_fmin}, {"fmax", x_fmax}, {"fmod", x_fmod}, {"fma", x_fmuladd},
  {nullptr, nullptr}
};
static const ExtEntry intrs[] = { // by prefix
  {"llvm.memcpy.", x_memcpy}, {"llvm.memmove.", x_memcpy}, {"llvm.memset.", x_memset}, {"llvm.umax.", x_umax}, {"llvm.umin.", x_umin}, {"llvm.smax.", x_smax}, {"llvm.smin.", x_smin}, {"llvm.abs.", x_iabs},
  {"llvm.usub.sat.", x_usubsat}, {"llvm.uadd.sat.", x_uaddsat}, {"llvm.fshl.", x_fshl}, {"llvm.fshr.", x_fshr}, {"llvm.bswap.", x_bswap}, {"llvm.ctpop.", x_ctpop}, {"llvm.ctlz.", x_ctlz}, {"llvm.cttz.", x_cttz},
  {"llvm.uadd.with.overflow.", x_uaddo}, {"llvm.usub.with.overflow.", x_usubo}, {"llvm.umul.with.overflow.", x_umulo}, {"llvm.is.constant.", x_isconst}, {"llvm.expect.", x_expect}, {"llvm.objectsize.", x_objsize},
  {"llvm.stacksave", x_stackSave}, {"llvm.stackrestore", x_nop}, {"llvm.log.", x_log}, {"llvm.log2.", x_log2}, {"llvm.pow.", x_pow}, {"llvm.exp2.", x_exp2}, {"llvm.floor.", x_floor}, {"llvm.ceil.", x_ceil}, {"llvm.fabs.", x_fabs}, {"llvm.ldexp.", x_ldexp}, {"llvm.sqrt.", x_sqrt},
  {"llvm.fmuladd.", x_fmuladd}, {"llvm.fma.", x_fmuladd}, {"llvm.minnum.", x_fmin}, {"llvm.maxnum.", x_fmax}, {"llvm.copysign.", x_copysign}, {"llvm.trunc.", x_trunc}, {"llvm.round.", x_round}, {"llvm.rint.", x_rint}, {"llvm.exp.", x_exp}, {"llvm.log10.", x_log10},
  {nullptr, nullptr}
};
static std::vector<int (*)(CInst&)> extFns;
static int findExt(const std::string& n) {
  for (const ExtEntry* e = exts; e->name; e++) if (n == e->name) { extFns.push_back(e->fn); return extFns.size() - 1; }
  if (n.compare(0, 5, "llvm.") == 0) for (const ExtEntry* e = intrs; e->name; e++) if (n.compare(0, strlen(e->name), e->name) == 0) { extFns.push_back(e->fn); return extFns.size() - 1; }
  return -1;
}

// ---------------------------------------------------------------- interpreter
static Val binop(unsigned op, unsigned w, const Val& a, const Val& b, CInst& c) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = mask64(w), x = a.c, y = b.c;
    auto sx = [&](u64 v) { return (int64_t)(w == 64 ? v : (v ^ (1ull << (w - 1))) - (1ull << (w - 1))); };
    switch (op) {
      case Instruction::Add: return VC((x + y) & m); case Instruction::Sub: return VC((x - y) & m); case Instruction::Mul: return VC((x * y) & m);
      case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
      case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return VC(y >= w ? 0 : x >> y); case Instruction::AShr: return VC((u64)(sx(x) >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: if (y) return VC(x / y); break; case Instruction::URem: if (y) return VC(x % y); break;
      case Instruction::SDiv: if (y) { if (sx(y) == -1) return VC((0 - x) & m); return VC((u64)(sx(x) / sx(y)) & m); } break;
      case Instruction::SRem: if (y) { if (sx(y) == -1) return VC(0); return VC((u64)(sx(x) % sx(y)) & m); } break;
    }
  }
  E x = toE(a, w), y = toE(b, w);
  if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
    E z = mkEq(y, mkConst(w, 0));
    if (ModelP m = feasible(z)) { reportError("division-by-zero", "", m); ModelP m2 = feasible(mkNot(z)); if (!m2) throw Kill{K_ERR}; S->model = m2; addCon(*S, mkNot(z)); }
  }
  switch (op) {
    case Instruction::Add: return VE(mkAdd(x, y)); case Instruction::Sub: return VE(mkSub(x, y)); case Instruction::Mul: return VE(mkMul(x, y));
    case Instruction::And: return VE(mkAnd(x, y)); case Instruction::Or: return VE(mkOr(x, y)); case Instruction::Xor: return VE(mkXor(x, y));
    case Instruction::Shl: return VE(mkShl(x, y)); case Instruction::LShr: return VE(mkLShr(x, y)); case Instruction::AShr: return VE(mkAShr(x, y));
    case Instruction::UDiv: return VE(mkUDiv(x, y)); case Instruction::URem: return VE(mkURem(x, y)); case Instruction::SDiv: return VE(mkSDiv(x, y)); case Instruction::SRem: return VE(mkSRem(x, y));
  }
  throw Kill{K_UNSUP};
}
static Val cmpop(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; auto sx = [&](u64 v) { return (int64_t)(w == 64 ? v : (v ^ (1ull << (w - 1))) - (1ull << (w - 1))); };
    switch (p) {
      case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y);
      case CmpInst::ICMP_SLT: return VC(sx(x) < sx(y)); case CmpInst::ICMP_SLE: return VC(sx(x) <= sx(y)); case CmpInst::ICMP_SGT: return VC(sx(x) > sx(y)); case CmpInst::ICMP_SGE: return VC(sx(x) >= sx(y));
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return VE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return VE(mkUle(x, y)); case CmpInst::ICMP_UGT: return VE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return VE(mkUle(y, x));
    case CmpInst::ICMP_SLT: return VE(mkSlt(x, y)); case CmpInst::ICMP_SLE: return VE(mkSle(x, y)); case CmpInst::ICMP_SGT: return VE(mkSlt(y, x)); case CmpInst::ICMP_SGE: return VE(mkSle(y, x));
  }
  throw Kill{K_UNSUP};
}
static void unsup(CInst& c, const std::string& what) { unsupMap[what]++; throw Kill{K_UNSUP}; }

static void execInst(CInst& c) {
  Frame& f = S->fr.back();
  switch (c.op) {
    case C_NOP: f.pc++; return;
    case C_BIN: R[c.dst] = binop(c.sub, c.w, get(c.a), get(c.b), c); f.pc++; return;
    case C_CMP: R[c.dst] = cmpop(c.sub, c.w2, get(c.a), get(c.b)); f.pc++; return;
    case C_LOAD: {
      Val p = get(c.a);
      if (c.aux.empty()) { Val v = loadMem(p, c.w); R[c.dst] = v; }
      else { if (p.e) p = VC(concretize(p, 64)); for (size_t i = 0; i < c.aux.size(); i += 2) R[c.dst + i / 2] = loadMem(VC(p.c + c.aux[i]), c.aux[i + 1]); }
      f.pc++; return; }
    case C_STORE: {
      Val p = get(c.b);
      if (c.aux.empty()) storeMem(p, get(c.a), c.w);
      else { if (p.e) p = VC(concretize(p, 64)); for (size_t i = 0; i < c.aux.size(); i += 2) storeMem(VC(p.c + c.aux[i]), get(c.args[i / 2]), c.aux[i + 1]); }
      f.pc++; return; }
    case C_GEP: {
      Val p = get(c.a); bool sym = p.e != nullptr; for (auto& o : c.args) if (o.slot >= 0 && R[o.slot].e) sym = true;
      if (!sym) { u64 a = p.c + c.b.c; for (size_t i = 0; i < c.args.size(); i++) { u64 v = get(c.args[i]).c; unsigned w = c.aux[2 * i + 1]; if (w < 64) v = (v ^ (1ull << (w - 1))) - (1ull << (w - 1)); a += v * c.aux[2 * i]; } R[c.dst] = VC(a); }
      else { E a = mkAdd(toE(p, 64), mkConst(64, c.b.c)); for (size_t i = 0; i < c.args.size(); i++) { E v = toE(get(c.args[i]), c.aux[2 * i + 1]); v = mkSExt(v, 64); a = mkAdd(a, mkMul(v, mkConst(64, c.aux[2 * i]))); } R[c.dst] = VE(a); }
      f.pc++; return; }
    case C_ALLOCA: { u64 n = concretize(get(c.a), 64); u64 a = allocObj(n * c.aux[0], OK_STACK); f.allocas.push_back(a >> 32); R[c.dst] = VC(a); f.pc++; return; }
    case C_JMP: takeEdge(f, c.x); return;
    case C_BR: { Val v = get(c.a); bool t = v.e ? decide(v.e) : (v.c & 1); takeEdge(f, t ? c.x : c.y); return; }
    case C_SWITCH: {
      Val v = get(c.a);
      if (!v.e) { for (size_t i = 0; i < c.aux.size(); i += 2) if (c.aux[i] == v.c) { takeEdge(f, c.aux[i + 1]); return; } takeEdge(f, c.x); return; }
      std::map<u64, E> conds; for (size_t i = 0; i < c.aux.size(); i += 2) { E q = mkEq(v.e, mkConst(c.w2, c.aux[i])); E& d = conds[c.aux[i + 1]]; d = d ? mkOr(d, q) : q; }
      for (auto& kv : conds) if (decide(kv.second)) { takeEdge(f, kv.first); return; }
      takeEdge(f, c.x); return; }
    case C_RET: {
      Val vals[16]; std::vector<Val> big; Val* t = vals; if (c.args.size() > 16) { big.resize(c.args.size()); t = big.data(); }
      for (size_t i = 0; i < c.args.size(); i++) t[i] = get(c.args[i]);
      size_t n = c.args.size(); popFrame();
      if (S->fr.empty()) throw Kill{K_DONE};
      CInst& cc = S->fr.back().f->code[S->fr.back().pc]; if (cc.dst >= 0) for (size_t i = 0; i < n && i < cc.ndst; i++) R[cc.dst + i] = t[i];
      afterCall(cc); return; }
    case C_SELECT: {
      Val v = get(c.a);
      if (c.ndst != 1) { bool t = v.e ? decide(v.e) : (v.c & 1); unsigned n = c.ndst; for (unsigned i = 0; i < n; i++) R[c.dst + i] = get(c.args[(t ? 0 : n) + i]); f.pc++; return; }
      if (!v.e) R[c.dst] = v.c & 1 ? get(c.b) : get(c.c);
      else { Val x = get(c.b), y = get(c.c); if (c.I->getType()->isPointerTy() && (x.e || y.e || (x.c >> 32) != (y.c >> 32))) { bool t = decide(v.e); R[c.dst] = t ? x : y; } else R[c.dst] = VE(mkIte(v.e, toE(x, c.w), toE(y, c.w))); }
      f.pc++; return; }
    case C_TRUNC: { Val v = get(c.a); if (!v.e) R[c.dst] = VC(v.c & mask64(c.w)); else R[c.dst] = VE(mkExtract(v.e, 0, c.w)); f.pc++; return; }
    case C_ZEXT: { Val v = get(c.a); if (!v.e && c.w <= 64) R[c.dst] = v; else R[c.dst] = VE(mkZExt(toE(v, c.w2), c.w)); f.pc++; return; }
    case C_SEXT: { Val v = get(c.a); if (!v.e && c.w <= 64) { u64 x = v.c; x = c.w2 >= 64 ? x : (x ^ (1ull << (c.w2 - 1))) - (1ull << (c.w2 - 1)); R[c.dst] = VC(x & mask64(c.w)); } else R[c.dst] = VE(mkSExt(toE(v, c.w2), c.w)); f.pc++; return; }
    case C_COPY: R[c.dst] = get(c.a); f.pc++; return;
    case C_EXTRACTV: { for (unsigned i = 0; i < c.ndst; i++) R[c.dst + i] = get(c.args[i]); f.pc++; return; }
    case C_INSERTV: { for (unsigned i = 0; i < c.ndst; i++) { Val v = get(c.args[i]); R[c.dst + i] = v; } f.pc++; return; }
    case C_LPAD: {
      u64 ti = excTi(S->curExc), sel = 0;
      for (size_t i = 0; i < c.aux.size(); i += 2) if (c.aux[i] == 1 && (c.aux[i + 1] == 0 || tiDerives(ti, c.aux[i + 1]))) { sel = tiId(c.aux[i + 1]); break; } else if (c.aux[i] == 2) { sel = (u64)-1 & 0xffffffff; break; }
      R[c.dst] = VC(S->curExc); R[c.dst + 1] = VC(sel); f.pc++; return; }
    case C_RESUME: { u64 e = get(c.args[0]).c; unwind(e); return; }
    case C_UNREACH: reportError("unreachable", "", S->model); throw Kill{K_ERR};
    case C_FBIN: {
      double a = asD(VC(concretize(get(c.a), c.w)), c.w), b = asD(VC(concretize(get(c.b), c.w)), c.w), r = 0;
      switch (c.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); }
      R[c.dst] = fromD(r, c.w); f.pc++; return; }
    case C_FNEG: R[c.dst] = fromD(-asD(VC(concretize(get(c.a), c.w)), c.w), c.w); f.pc++; return;
    case C_FCMP: {
      double a = asD(VC(concretize(get(c.a), c.w2)), c.w2), b = asD(VC(concretize(get(c.b), c.w2)), c.w2); bool un = std::isnan(a) || std::isnan(b), r = false;
      switch (c.sub & 7) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a != b && !un; break; case 7: r = !un; break; }
      if (c.sub & 8) r = un || r; if (c.sub == CmpInst::FCMP_TRUE) r = true; if (c.sub == CmpInst::FCMP_UNO) r = un;
      R[c.dst] = VC(r); f.pc++; return; }
    case C_FCAST: {
      Val v = get(c.a);
      u64 x = concretize(v, c.w2);
      switch (c.sub) {
        case Instruction::UIToFP: R[c.dst] = fromD((double)x, c.w); if (c.w == 32) R[c.dst] = fromD((float)x, 32); break;
        case Instruction::SIToFP: { int64_t s = c.w2 >= 64 ? (int64_t)x : (int64_t)((x ^ (1ull << (c.w2 - 1))) - (1ull << (c.w2 - 1))); R[c.dst] = fromD(c.w == 32 ? (double)(float)s : (double)s, c.w); break; }
        case Instruction::FPToUI: R[c.dst] = VC((u64)asD(VC(x), c.w2) & mask64(c.w)); break;
        case Instruction::FPToSI: R[c.dst] = VC((u64)(int64_t)asD(VC(x), c.w2) & mask64(c.w)); break;
        case Instruction::FPExt: case Instruction::FPTrunc: R[c.dst] = fromD(asD(VC(x), c.w2), c.w); break;
        default: unsup(c, "cast");
      }
      f.pc++; return; }
    case C_CMPXCHG: { Val o = loadMem(get(c.a), c.w); E eq = mkEq(toE(o, c.w), toE(get(c.b), c.w)); bool t = decide(eq); if (t) storeMem(get(c.a), get(c.c), c.w); R[c.dst] = o; R[c.dst + 1] = VC(t); f.pc++; return; }
    case C_RMW: { Val o = loadMem(get(c.a), c.w); E x = toE(o, c.w), y = toE(get(c.b), c.w), r; switch (c.sub) { case AtomicRMWInst::Add: r = mkAdd(x, y); break; case AtomicRMWInst::Sub: r = mkSub(x, y); break; case AtomicRMWInst::Xchg: r = y; break; default: unsup(c, "rmw"); return; } storeMem(get(c.a), VE(r), c.w); R[c.dst] = o; f.pc++; return; }
    case C_CALL: case C_INVOKE: {
      CFunc* cf = c.callee;
      if (!cf) { u64 a = concretize(get(c.a), 64); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) { reportError("bad-call", "indirect call to non-function", S->model); throw Kill{K_ERR}; } cf = it->second; }
      if (cf->extId == -1) { cf->extId = -2; int e = findExt(cf->name); if (e >= 0) cf->extId = e; }
      if (cf->extId >= 0) { size_t d = S->fr.size(); (void)d; int r = extFns[cf->extId](c); if (r == 0) afterCall(c); return; }
      if (!cf->hasBody) { unsup(c, "external " + demang(cf->name)); }
      std::vector<Val> args; args.reserve(c.args.size()); for (auto& o : c.args) args.push_back(get(o));
      pushFrame(cf, args); return; }
    default: { std::string s; raw_string_ostream os(s); c.I->print(os); unsup(c, "instruction " + os.str()); }
  }
}

static bool timeUp() { return now() > optTime || shm->stop.load(); }
static u64 rssMB() { static u64 n = 0; FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a, b; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); n = b * 4096 / 1048576; return n; }
static bool timedOut = false;
static int childNo = 0;
static double lastSplit = 0;
// hand pending states to a forked worker when one is idle; keepCur: the current state S stays with the parent
static void maybeSplit(bool keepCur) {
  if (work.size() < (keepCur ? 1u : 2u)) return;
  int a = shm->active.load(); if (a >= (int)optWorkers) return;
  double t = now(); if (t - lastSplit < 0.03) return; lastSplit = t;
  if (!shm->active.compare_exchange_strong(a, a + 1)) return;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { shm->active--; return; }
  size_t n = work.size(); std::vector<State*> mine, theirs;
  if (keepCur && n == 1) theirs = work;
  else for (size_t i = 0; i < n; i++) ((i & 1) == 0 ? theirs : mine).push_back(work[i]);
  if (p == 0) { for (State* s : mine) delete s; if (keepCur) delete S; work = theirs; childNo++; S = nullptr;
    st = Stats(); reach.clear(); unsupMap.clear(); boundedMap.clear(); outLines.clear(); gSolverStats = SolverStats(); throw Kill{-1}; }
  else { for (State* s : theirs) delete s; work = mine; }
}
static bool inChild = false; static unsigned traceCount = 0;
static void runState() {
  bindR(); u64 tick = 0;
  for (;;) {
    Frame& f = S->fr.back(); CInst& c = f.f->code[f.pc]; c.covered = true;
    size_t w0 = work.size();
    try { execInst(c); }
    catch (Kill k) {
      st.steps += S->steps;
      switch (k.why) { case K_DONE: st.paths++; if (S->reachedAssert) st.pathsAssert++; break; case K_ERR: st.paths++; break; case K_ASSUME: st.killedAssume++; break; case K_BOUND: st.bounded++; break; case K_UNSUP: st.unsup++; break; case K_TIME: timedOut = true; st.dropped++; break; }
      if (!optTrace.empty() && k.why == K_DONE) if (traceCount++ < 12) { std::string rl; for (auto& x : S->trace) rl += (rl.empty() ? "\"" : ",\"") + jesc(x) + "\""; emit("{\"t\":\"path\",\"inputs\":" + inputsJson(*S, *S->model) + ",\"reach\":[" + rl + "]}"); }
      delete S; S = nullptr; return;
    }
    if (work.size() > w0) { try { maybeSplit(true); } catch (Kill) { return; } }
    if (++S->steps > optMaxSteps) { st.stepLimit++; reportError("step-limit", "path exceeds " + std::to_string(optMaxSteps) + " instructions", S->model); st.paths++; delete S; S = nullptr; return; }
    if ((++tick & 4095) == 0) { if (timeUp() || ((tick & 0xfffff) == 0 && rssMB() > optMaxMemMB)) { timedOut = true; return; } }
  }
}

static void writeResults() {
  std::string o;
  for (auto& p : prof) fprintf(stderr, "PROF %8.2fs %6u %s\n", p.second.first, p.second.second, p.first.c_str());
  auto put = [&](const std::string& s) { o += s + "\n"; };
  for (auto& l : outLines) put(l);
  char b[1024];
  snprintf(b, sizeof b, "{\"t\":\"stats\",\"paths\":%llu,\"pathsAssert\":%llu,\"forks\":%llu,\"steps\":%llu,\"assumeKilled\":%llu,\"errors\":%llu,\"asserts\":%llu,\"assertQueries\":%llu,\"unsup\":%llu,\"bounded\":%llu,\"unknown\":%llu,\"stepLimit\":%llu,\"dropped\":%llu,\"queries\":%llu,\"cacheHits\":%llu,\"z3\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solverTime\":%.3f,\"maxQuery\":%.3f,\"timedOut\":%d,\"time\":%.2f,\"exprs\":%zu}",
    (unsigned long long)st.paths, (unsigned long long)st.pathsAssert, (unsigned long long)st.forks, (unsigned long long)st.steps, (unsigned long long)st.killedAssume, (unsigned long long)st.errors, (unsigned long long)st.asserts, (unsigned long long)st.assertQueries, (unsigned long long)st.unsup, (unsigned long long)st.bounded, (unsigned long long)st.unknown, (unsigned long long)st.stepLimit, (unsigned long long)st.dropped,
    (unsigned long long)gSolverStats.queries, (unsigned long long)gSolverStats.cacheHits, (unsigned long long)gSolverStats.z3Queries, (unsigned long long)gSolverStats.sat, (unsigned long long)gSolverStats.unsat, gSolverStats.time, gSolverStats.maxTime, (int)timedOut, now(), exprCount());
  put(b);
  for (auto& kv : reach) put("{\"t\":\"reach\",\"id\":\"" + jesc(kv.first) + "\",\"n\":" + std::to_string(kv.second) + "}");
  for (auto& kv : unsupMap) put("{\"t\":\"unsup\",\"id\":\"" + jesc(kv.first) + "\",\"n\":" + std::to_string(kv.second) + "}");
  for (auto& kv : boundedMap) put("{\"t\":\"bounded\",\"id\":\"" + jesc(kv.first) + "\",\"n\":" + std::to_string(kv.second) + "}");
  for (CFunc* f : allFuncs) if (f->entered && f->lib) put("{\"t\":\"func\",\"name\":\"" + jesc(demang(f->name)) + "\"}");
  if (!optCov.empty()) {
    std::map<std::string, std::set<unsigned>> lines, all;
    for (CFunc* f : allFuncs) if (f->compiled) for (auto& c : f->code) if (c.I) for (const DILocation* d = c.I->getDebugLoc().get(); d; d = d->getInlinedAt()) { std::string fn = d->getFilename().str(); if (fn.find("pe_lib") == std::string::npos) continue; fn = fn.substr(fn.rfind('/') + 1); all[fn].insert(d->getLine()); if (c.covered) lines[fn].insert(d->getLine()); }
    for (auto& kv : all) { std::string l, m; for (unsigned x : kv.second) { if (lines[kv.first].count(x)) l += (l.empty() ? "" : ",") + std::to_string(x); else m += (m.empty() ? "" : ",") + std::to_string(x); } put("{\"t\":\"cov\",\"file\":\"" + kv.first + "\",\"hit\":[" + l + "],\"miss\":[" + m + "]}"); }
  }
  int fd = open(optOut.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); size_t p = 0; while (p < o.size()) { ssize_t n = write(fd, o.data() + p, o.size() - p); if (n <= 0) break; p += n; } close(fd);
}

static void parseTypeinfos() {
  static const char* stdTi[][2] = {{"St13runtime_error", "St9exception"}, {"St11logic_error", "St9exception"}, {"St12length_error", "St11logic_error"}, {"St12out_of_range", "St11logic_error"}, {"St16invalid_argument", "St11logic_error"}, {"St12domain_error", "St11logic_error"},
    {"St11range_error", "St13runtime_error"}, {"St14overflow_error", "St13runtime_error"}, {"St15underflow_error", "St13runtime_error"}, {"St9bad_alloc", "St9exception"}, {"St20bad_array_new_length", "St9bad_alloc"}, {"St8bad_cast", "St9exception"}, {"St10bad_typeid", "St9exception"},
    {"St12system_error", "St13runtime_error"}, {"NSt8ios_base7failureB5cxx11E", "St12system_error"}};
  for (auto& g : M->globals()) {
    if (!g.getName().startswith("_ZTI")) continue;
    u64 a = gaddr[&g]; tiName[a] = "_ZTS" + g.getName().substr(4).str(); tiName[a] = "_ZTI" + g.getName().substr(4).str();
    if (g.hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) {
      if (cs->getNumOperands() == 3) tiBases[a].push_back((u64)constVal(cs->getOperand(2)));
      else if (cs->getNumOperands() > 4) for (unsigned i = 4; i < cs->getNumOperands(); i += 2) tiBases[a].push_back((u64)constVal(cs->getOperand(i)));
    }
  }
  for (auto& p : stdTi) { auto* g = M->getNamedGlobal(std::string("_ZTI") + p[0]); auto* b = M->getNamedGlobal(std::string("_ZTI") + p[1]); if (g && b && !g->hasInitializer()) tiBases[gaddr[g]].push_back(gaddr[b]); }
  // transitive gaps (e.g. length_error present but logic_error absent) are covered by linking the runtime, which names them all
}

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now(); std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--workers") optWorkers = atoi(nx().c_str()); else if (a == "--query-ms") optQueryMs = atoi(nx().c_str());
    else if (a == "--out") optOut = nx(); else if (a == "--cov") optCov = "1"; else if (a == "--trace") optTrace = "1"; else if (a == "--max-steps") optMaxSteps = atoll(nx().c_str()); else if (a == "--max-alloc") optMaxAlloc = atoll(nx().c_str());
    else if (a == "-v") optVerbose = true; else if (a == "--mem-mb") optMaxMemMB = atoll(nx().c_str()); else if (a == "--ite-range") optIteRange = atoi(nx().c_str()); else if (a == "--fork-ptr") optForkPtr = true; else if (a == "--max-err") optMaxErr = atoi(nx().c_str()); else bc = a;
  }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("psx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shm->active = 1; shm->stop = 0;
  solverInit();
  S = new State; auto m0 = std::make_shared<Model>(); m0->id = newModelId(); S->model = m0;
  for (auto& F : *M) { CFunc* f = new CFunc; f->F = &F; f->name = F.getName().str(); f->hasBody = !F.isDeclaration(); Obj* o = newObj(0, OK_FUNC, 0); f->addr = addrOf(S->mem.add(o)); cfuncs[&F] = f; funcByAddr[f->addr] = f; allFuncs.push_back(f);
    if (auto* sp = F.getSubprogram()) { std::string fn = sp->getFilename().str(); f->lib = fn.find("pe_lib") != std::string::npos; } }
  for (auto& g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); Obj* o = newObj(g.isDeclaration() ? 256 : sz, OK_GLOBAL, 0); gaddr[&g] = addrOf(S->mem.add(o)); gvByAddr[gaddr[&g]] = &g; }
  for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = S->mem.get(gaddr[&g] >> 32); initBytes(g.getInitializer(), o->data); o->ro = g.isConstant(); }
  parseTypeinfos();
  // constructors
  std::vector<std::pair<int, Function*>> ctors;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    pushFrame(cfuncs[c.second], {});
    try { bindR(); for (;;) { Frame& f = S->fr.back(); execInst(f.f->code[f.pc]); } } catch (Kill k) { if (k.why != K_DONE) { fprintf(stderr, "psx: constructor %s failed (%d)\n", c.second->getName().str().c_str(), k.why); for (auto& kv : unsupMap) fprintf(stderr, "  %s\n", kv.first.c_str()); S->fr.clear(); S->regs.clear(); } }
  }
  Function* entry = M->getFunction(optEntry); if (!entry || entry->isDeclaration()) { fprintf(stderr, "psx: no entry %s\n", optEntry.c_str()); return 3; }
  pushFrame(cfuncs[entry], {}); work.push_back(S); S = nullptr;
  double lastMem = now();
  while (!work.empty() && !timedOut) {
    try { maybeSplit(false); } catch (Kill) { continue; }
    if (work.empty()) break;
    S = work.back(); work.pop_back();
    runState();
    if (timeUp()) timedOut = !work.empty() || timedOut;
    if (now() - lastMem > 2) { lastMem = now(); if (rssMB() > optMaxMemMB) timedOut = true; }
  }
  if (timedOut) st.dropped += work.size() + (S ? 1 : 0);
  writeResults();
  shm->active--;
  if (childNo > 0) _exit(0);
  while (wait(nullptr) > 0) {}
  _exit(0);
}
