#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unordered_set>
#include <unordered_map>
#include <deque>

static std::vector<Expr*> table; // open addressing
static size_t tcount = 0;
static uint32_t nextId = 1;
static uint64_t modelIds = 1;
uint64_t newModelId() { return modelIds++; }
size_t exprCount() { return tcount; }

static const size_t CH = 4096;
static Expr* chunk = nullptr; static size_t chunkPos = CH;
static Expr* allocExpr() {
  if (chunkPos == CH) { chunk = (Expr*)malloc(sizeof(Expr) * CH); chunkPos = 0; }
  return &chunk[chunkPos++];
}
static inline uint32_t mix(uint32_t h, uint64_t v) {
  h ^= (uint32_t)(v * 0x9E3779B97F4A7C15ull >> 32); h *= 0x85ebca6b; h ^= h >> 13; return h;
}
static void computeInterval(Expr* e);

static E intern(EKind kind, unsigned w, uint32_t aux, E a, E b, E c, u128 cv) {
  uint32_t h = kind * 31 + w; h = mix(h, aux); h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0);
  h = mix(h, c ? c->id : 0); h = mix(h, (uint64_t)cv); h = mix(h, (uint64_t)(cv >> 64));
  if (table.empty()) table.assign(1 << 16, nullptr);
  if (tcount * 2 > table.size()) {
    std::vector<Expr*> n(table.size() * 2, nullptr);
    for (Expr* x : table) if (x) { size_t i = x->hash & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = x; }
    table.swap(n);
  }
  size_t i = h & (table.size() - 1);
  while (Expr* x = table[i]) {
    if (x->hash == h && x->kind == kind && x->width == w && x->aux == aux && x->k[0] == a && x->k[1] == b && x->k[2] == c && x->cval == cv) return x;
    i = (i + 1) & (table.size() - 1);
  }
  Expr* x = allocExpr();
  x->kind = kind; x->width = w; x->nk = c ? 3 : b ? 2 : a ? 1 : 0; x->aux = aux; x->hash = h; x->id = nextId++;
  x->k[0] = a; x->k[1] = b; x->k[2] = c; x->cval = cv; x->evModel = 0; x->evVal = 0; x->zbv = x->zbool = nullptr; x->varset = -1;
  computeInterval(x);
  table[i] = x; tcount++;
  return x;
}

static uint64_t fullHi(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t onesUp(uint64_t v) { v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32; return v; }

static void computeInterval(Expr* e) {
  unsigned w = e->width;
  e->lo = 0; e->hi = fullHi(w);
  if (w > 64) return;
  E a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->kind) {
    case EK_Const: e->lo = e->hi = (uint64_t)e->cval; break;
    case EK_Add: {
      u128 h = (u128)a->hi + b->hi;
      if (h <= (u128)fullHi(w)) { e->lo = a->lo + b->lo; e->hi = (uint64_t)h; }
      else { u128 l = (u128)a->lo + b->lo; u128 M = (u128)fullHi(w) + 1; if (l >= M && h < 2 * M) { e->lo = (uint64_t)(l - M); e->hi = (uint64_t)(h - M); } }
      break; }
    case EK_Sub: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case EK_Mul: { u128 h = (u128)a->hi * b->hi; if (h <= (u128)fullHi(w)) { e->lo = a->lo * b->lo; e->hi = (uint64_t)h; } break; }
    case EK_UDiv: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case EK_URem: if (b->lo > 0) { e->hi = b->hi - 1; if (a->hi < e->hi) e->hi = a->hi; } break;
    case EK_And: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
    case EK_Or: e->lo = a->lo > b->lo ? a->lo : b->lo; e->hi = onesUp(a->hi | b->hi); break;
    case EK_Xor: e->hi = onesUp(a->hi | b->hi); break;
    case EK_Concat: if (a->width + b->width <= 64) { e->lo = (a->lo << b->width) + b->lo; e->hi = (a->hi << b->width) + b->hi; } break;
    case EK_Extract: if (a->width <= 64) {
      if (e->aux + w == a->width) { e->lo = a->lo >> e->aux; e->hi = a->hi >> e->aux; }
      else { uint64_t l = a->lo >> e->aux, h = a->hi >> e->aux; if (h <= fullHi(w)) { e->lo = l; e->hi = h; } }
      } break;
    case EK_ZExt: e->lo = a->lo; e->hi = a->hi; break;
    case EK_SExt: if (a->hi < (1ull << (a->width - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
    case EK_Ite: e->lo = b->lo < c->lo ? b->lo : c->lo; e->hi = b->hi > c->hi ? b->hi : c->hi; break;
    case EK_LShr: e->hi = a->hi; break;
    default: break;
  }
}

E mkConst(unsigned w, u128 v) { return intern(EK_Const, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(uint32_t id) { return intern(EK_Var, 8, id, nullptr, nullptr, nullptr, 0); }

static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s)) - (__int128)s;
}
static u128 foldBin(EKind k, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (k) {
    case EK_Add: return (a + b) & m; case EK_Sub: return (a - b) & m; case EK_Mul: return (a * b) & m;
    case EK_UDiv: return b ? a / b : m; case EK_URem: return b ? a % b : a;
    case EK_SDiv: if (!b) return sx(a, w) < 0 ? 1 : m; if (sx(b, w) == -1) return (0 - a) & m; return (u128)(sx(a, w) / sx(b, w)) & m;
    case EK_SRem: if (!b) return a; if (sx(b, w) == -1) return 0; return (u128)(sx(a, w) % sx(b, w)) & m;
    case EK_And: return a & b; case EK_Or: return a | b; case EK_Xor: return a ^ b;
    case EK_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case EK_LShr: return b >= w ? 0 : a >> (unsigned)b;
    case EK_AShr: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sx(a, w) >> s) & m; }
    case EK_Eq: return a == b; case EK_Ult: return a < b; case EK_Slt: return sx(a, w) < sx(b, w);
    default: abort();
  }
}
static inline E T() { return mkConst(1, 1); }
static inline E F() { return mkConst(1, 0); }
static inline E B(bool b) { return mkConst(1, b ? 1 : 0); }

// try to merge two adjacent pieces
static E tryMerge(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst(hi->width + lo->width, (hi->cval << lo->width) | lo->cval);
  if (hi->kind == EK_Extract && lo->kind == EK_Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
    return mkByte(hi->k[0], lo->aux, hi->width + lo->width);
  // low piece is a whole expression x, high piece is an extract of ... sext sign bits: no
  return nullptr;
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) { fprintf(stderr, "psx: concat too wide\n"); abort(); }
  if (E m = tryMerge(hi, lo)) return m;
  if (isC(hi) && hi->cval == 0) return mkZExt(lo, w);
  if (lo->kind == EK_Concat) { if (E m = tryMerge(hi, lo->k[0])) return mkConcat(m, lo->k[1]); }
  if (lo->kind == EK_ZExt) { // split so that zero bits merge with hi if const
    if (isC(hi)) return mkConcat(mkConst(hi->width + lo->width - lo->k[0]->width, hi->cval << (lo->width - lo->k[0]->width)), lo->k[0]);
  }
  if (hi->kind == EK_Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->kind == EK_ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  // Ite merging: same condition on both sides
  if (hi->kind == EK_Ite && lo->kind == EK_Ite && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  // merged pointer bytes: keep the merge whole, next to constant bytes
  if (hi->kind == EK_Ite && isC(hi->k[1]) && isC(hi->k[2]) && isC(lo)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (isC(hi) && lo->kind == EK_Ite && isC(lo->k[1]) && isC(lo->k[2])) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  return intern(EK_Concat, w, 0, hi, lo, nullptr, 0);
}
E mkByte(E e, unsigned off, unsigned w) {
  if (off == 0 && w == e->width) return e;
  switch (e->kind) {
    case EK_Const: return mkConst(w, e->cval >> off);
    case EK_Extract: return mkByte(e->k[0], e->aux + off, w);
    case EK_Concat: {
      unsigned lw = e->k[1]->width;
      if (off >= lw) return mkByte(e->k[0], off - lw, w);
      if (off + w <= lw) return mkByte(e->k[1], off, w);
      return mkConcat(mkByte(e->k[0], 0, off + w - lw), mkByte(e->k[1], off, lw - off));
    }
    case EK_ZExt: {
      unsigned xw = e->k[0]->width;
      if (off >= xw) return mkConst(w, 0);
      if (off + w <= xw) return mkByte(e->k[0], off, w);
      return mkZExt(mkByte(e->k[0], off, xw - off), w);
    }
    case EK_SExt: if (off + w <= e->k[0]->width) return mkByte(e->k[0], off, w); break;
    case EK_Ite: if (isC(e->k[1]) || isC(e->k[2])) return mkIte(e->k[0], mkByte(e->k[1], off, w), mkByte(e->k[2], off, w)); break;
    default: break;
  }
  return intern(EK_Extract, w, off, e, nullptr, nullptr, 0);
}
E mkExtract(E e, unsigned off, unsigned w) {
  if (off == 0 && w == e->width) return e;
  switch (e->kind) {
    case EK_Concat: {
      unsigned lw = e->k[1]->width;
      if (off >= lw) return mkExtract(e->k[0], off - lw, w);
      if (off + w <= lw) return mkExtract(e->k[1], off, w);
      break;
    }
    case EK_ZExt: if (off + w <= e->k[0]->width) return mkExtract(e->k[0], off, w); break;
    case EK_And: return mkAnd(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case EK_Or: return mkOr(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case EK_Xor: return mkXor(mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case EK_Not: return mkNot(mkExtract(e->k[0], off, w));
    case EK_Add: case EK_Sub: case EK_Mul: if (off == 0) {
      E a = mkExtract(e->k[0], 0, w), b = mkExtract(e->k[1], 0, w);
      if (a->kind != EK_Extract && b->kind != EK_Extract) return e->kind == EK_Add ? mkAdd(a, b) : e->kind == EK_Sub ? mkSub(a, b) : mkMul(a, b);
      } break;
    case EK_Ite: return mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w));
    default: break;
  }
  return mkByte(e, off, w);
}
E mkZExt(E e, unsigned w) {
  if (w == e->width) return e;
  if (w < e->width) abort();
  if (isC(e)) return mkConst(w, e->cval);
  if (e->kind == EK_ZExt) return mkZExt(e->k[0], w);
  if (e->kind == EK_Ite && (isC(e->k[1]) || isC(e->k[2])) && e->width > 1) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
  return intern(EK_ZExt, w, 0, e, nullptr, nullptr, 0);
}
E mkSExt(E e, unsigned w) {
  if (w == e->width) return e;
  if (isC(e)) return mkConst(w, (u128)sx(e->cval, e->width));
  if (e->kind == EK_SExt) return mkSExt(e->k[0], w);
  if (e->width <= 64 && e->width > 1 && e->hi < (1ull << (e->width - 1))) return mkZExt(e, w);
  if (e->kind == EK_Ite && (isC(e->k[1]) || isC(e->k[2]))) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  if (e->width == 1) return mkIte(e, mkConst(w, maskw(w)), mkConst(w, 0));
  return intern(EK_SExt, w, 0, e, nullptr, nullptr, 0);
}
static inline bool iteC(E e) { return e->kind == EK_Ite && isC(e->k[1]) && isC(e->k[2]); }

// disjoint-bits concatenation: Concat(a,0_k) op ZExt(b) with b.width<=k
static E disjoint(E a, E b) {
  for (int s = 0; s < 2; s++) {
    if (a->kind == EK_Concat && isC(a->k[1]) && a->k[1]->cval == 0) {
      unsigned k = a->k[1]->width;
      if (isC(b) && (b->cval >> k) == 0) return mkConcat(a->k[0], mkConst(k, b->cval));
      if (b->kind == EK_ZExt && b->k[0]->width <= k) return mkConcat(a->k[0], mkZExt(b->k[0], k));
      if (b->kind == EK_Concat && b->k[0]->width + 0u >= 1 && isC(b->k[0]) && b->k[0]->cval == 0 && b->k[1]->width <= k) return mkConcat(a->k[0], mkZExt(b->k[1], k));
    }
    // ZExt(Concat(a',0_k)) | ZExt(b)
    if (a->kind == EK_ZExt && a->k[0]->kind == EK_Concat && isC(a->k[0]->k[1]) && a->k[0]->k[1]->cval == 0) {
      unsigned k = a->k[0]->k[1]->width;
      if (b->kind == EK_ZExt && b->k[0]->width <= k) return mkZExt(mkConcat(a->k[0]->k[0], mkZExt(b->k[0], k)), a->width);
      if (isC(b) && (b->cval >> k) == 0) return mkZExt(mkConcat(a->k[0]->k[0], mkConst(k, b->cval)), a->width);
    }
    E t = a; a = b; b = t;
  }
  return nullptr;
}
E mkAdd(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, a->cval + b->cval);
  if (isC(a)) { E t = a; a = b; b = t; }
  if (w == 1) return mkXor(a, b);
  if (isC(b)) {
    if (b->cval == 0) return a;
    if (a->kind == EK_Add && isC(a->k[1])) return mkAdd(a->k[0], mkConst(w, a->k[1]->cval + b->cval));
    if (a->kind == EK_Sub && isC(a->k[0])) return mkSub(mkConst(w, a->k[0]->cval + b->cval), a->k[1]);
    if (iteC(a)) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
  } else {
    if (a->kind == EK_Add && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->kind == EK_Add && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->kind == EK_Sub && a->k[1] == b) return a->k[0];
    if (b->kind == EK_Sub && b->k[1] == a) return b->k[0];
    if (a->id > b->id) { E t = a; a = b; b = t; }
  }
  if (E d = disjoint(a, b)) return d;
  return intern(EK_Add, w, 0, a, b, nullptr, 0);
}
E mkSub(E a, E b) {
  unsigned w = a->width;
  if (a == b) return mkConst(w, 0);
  if (isC(b)) return mkAdd(a, mkConst(w, 0 - b->cval));
  if (isC(a) && isC(b)) return mkConst(w, a->cval - b->cval);
  if (w == 1) return mkXor(a, b);
  if (a->kind == EK_Add) {
    if (a->k[0] == b) return a->k[1];
    if (a->k[1] == b) return a->k[0];
    if (isC(a->k[1])) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  }
  if (b->kind == EK_Add) {
    if (b->k[0] == a) return mkSub(mkConst(w, 0), b->k[1]);
    if (b->k[1] == a) return mkSub(mkConst(w, 0), b->k[0]);
    if (isC(b->k[1])) return mkAdd(mkSub(a, b->k[0]), mkConst(w, 0 - b->k[1]->cval));
    if (a->kind == EK_Add) {
      if (a->k[0] == b->k[0]) return mkSub(a->k[1], b->k[1]);
      if (a->k[1] == b->k[1]) return mkSub(a->k[0], b->k[0]);
      if (a->k[0] == b->k[1]) return mkSub(a->k[1], b->k[0]);
      if (a->k[1] == b->k[0]) return mkSub(a->k[0], b->k[1]);
    }
  }
  if (b->kind == EK_Sub && b->k[0] == a) return b->k[1];
  return intern(EK_Sub, w, 0, a, b, nullptr, 0);
}
static int log2c(u128 v) { if (!v || (v & (v - 1))) return -1; int n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
E mkMul(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, a->cval * b->cval);
  if (isC(a)) { E t = a; a = b; b = t; }
  if (w == 1) return mkAnd(a, b);
  if (isC(b)) {
    if (b->cval == 0) return b;
    if (b->cval == 1) return a;
    int l = log2c(b->cval); if (l >= 0) return mkShl(a, mkConst(w, l));
    if (iteC(a)) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    if (a->kind == EK_Mul && isC(a->k[1])) return mkMul(a->k[0], mkConst(w, a->k[1]->cval * b->cval));
  } else if (a->id > b->id) { E t = a; a = b; b = t; }
  return intern(EK_Mul, w, 0, a, b, nullptr, 0);
}
E mkUDiv(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_UDiv, w, a->cval, b->cval));
  if (isC(b)) { if (b->cval == 1) return a; int l = log2c(b->cval); if (l >= 0) return mkLShr(a, mkConst(w, l));
    if (a->kind == EK_ZExt && b->cval && (b->cval >> a->k[0]->width) == 0) return mkZExt(mkUDiv(a->k[0], mkConst(a->k[0]->width, b->cval)), w); }
  if (w <= 64 && b->lo > a->hi) return mkConst(w, 0);
  return intern(EK_UDiv, w, 0, a, b, nullptr, 0);
}
E mkURem(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_URem, w, a->cval, b->cval));
  if (isC(b)) { int l = log2c(b->cval); if (l >= 0) return mkAnd(a, mkConst(w, b->cval - 1));
    if (a->kind == EK_ZExt && b->cval && (b->cval >> a->k[0]->width) == 0) return mkZExt(mkURem(a->k[0], mkConst(a->k[0]->width, b->cval)), w); }
  if (w <= 64 && b->lo > a->hi) return a;
  return intern(EK_URem, w, 0, a, b, nullptr, 0);
}
static bool nonNeg(E a) { return a->width <= 64 && a->hi < (1ull << (a->width - 1)); }
E mkSDiv(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_SDiv, w, a->cval, b->cval));
  if (nonNeg(a) && nonNeg(b)) return mkUDiv(a, b);
  if (isC(b) && b->cval == 1) return a;
  return intern(EK_SDiv, w, 0, a, b, nullptr, 0);
}
E mkSRem(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_SRem, w, a->cval, b->cval));
  if (nonNeg(a) && nonNeg(b)) return mkURem(a, b);
  return intern(EK_SRem, w, 0, a, b, nullptr, 0);
}
E mkNot(E a) {
  if (isC(a)) return mkConst(a->width, ~a->cval);
  if (a->kind == EK_Not) return a->k[0];
  if (iteC(a)) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  return intern(EK_Not, a->width, 0, a, nullptr, nullptr, 0);
}
static E maskRuns(E a, u128 m) { // a & m as concat of extracts, when few runs
  unsigned w = a->width; unsigned runs = 0; bool prev = false;
  for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b && !prev) runs++; prev = b; }
  if (runs > 2) return nullptr;
  E r = nullptr; unsigned i = 0;
  while (i < w) {
    bool b = (m >> i) & 1; unsigned j = i; while (j < w && (bool)((m >> j) & 1) == b) j++;
    E p = b ? mkByte(a, i, j - i) : mkConst(j - i, 0);
    r = r ? mkConcat(p, r) : p; i = j;
  }
  return r;
}
E mkAnd(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, a->cval & b->cval);
  if (a == b) return a;
  if (isC(a)) { E t = a; a = b; b = t; }
  if (isC(b)) {
    if (b->cval == 0) return b;
    if (b->cval == maskw(w)) return a;
    if (iteC(a)) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
    if (E r = maskRuns(a, b->cval)) return r;
  } else {
    if (a->kind == EK_Not && a->k[0] == b) return mkConst(w, 0);
    if (b->kind == EK_Not && b->k[0] == a) return mkConst(w, 0);
    if (w == 1) { // absorb
      if (a->kind == EK_And && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->kind == EK_And && (b->k[0] == a || b->k[1] == a)) return b;
    }
    if (a->id > b->id) { E t = a; a = b; b = t; }
  }
  return intern(EK_And, w, 0, a, b, nullptr, 0);
}
E mkOr(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, a->cval | b->cval);
  if (a == b) return a;
  if (isC(a)) { E t = a; a = b; b = t; }
  if (isC(b)) {
    if (b->cval == 0) return a;
    if (b->cval == maskw(w)) return b;
    if (iteC(a)) return mkIte(a->k[0], mkOr(a->k[1], b), mkOr(a->k[2], b));
  } else {
    if (a->kind == EK_Not && a->k[0] == b) return mkConst(w, maskw(w));
    if (b->kind == EK_Not && b->k[0] == a) return mkConst(w, maskw(w));
    if (w == 1) {
      if (a->kind == EK_Or && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->kind == EK_Or && (b->k[0] == a || b->k[1] == a)) return b;
    }
    if (a->id > b->id) { E t = a; a = b; b = t; }
  }
  if (w > 1) if (E d = disjoint(a, b)) return d;
  return intern(EK_Or, w, 0, a, b, nullptr, 0);
}
E mkXor(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, a->cval ^ b->cval);
  if (a == b) return mkConst(w, 0);
  if (isC(a)) { E t = a; a = b; b = t; }
  if (isC(b)) {
    if (b->cval == 0) return a;
    if (b->cval == maskw(w)) return mkNot(a);
    if (a->kind == EK_Xor && isC(a->k[1])) return mkXor(a->k[0], mkConst(w, a->k[1]->cval ^ b->cval));
    if (iteC(a)) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b));
  } else {
    if (a->kind == EK_Xor) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (b->kind == EK_Xor) { if (b->k[0] == a) return b->k[1]; if (b->k[1] == a) return b->k[0]; }
    if (a->id > b->id) { E t = a; a = b; b = t; }
  }
  return intern(EK_Xor, w, 0, a, b, nullptr, 0);
}
E mkShl(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_Shl, w, a->cval, b->cval));
  if (isC(b)) { if (b->cval == 0) return a; if (b->cval >= w) return mkConst(w, 0); unsigned k = (unsigned)b->cval;
    if (a->kind == EK_ZExt && a->k[0]->width + k <= w) return mkZExt(mkConcat(a->k[0], mkConst(k, 0)), w);
    return mkConcat(mkByte(a, 0, w - k), mkConst(k, 0)); }
  return intern(EK_Shl, w, 0, a, b, nullptr, 0);
}
E mkLShr(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_LShr, w, a->cval, b->cval));
  if (isC(b)) { if (b->cval == 0) return a; if (b->cval >= w) return mkConst(w, 0); unsigned k = (unsigned)b->cval; return mkZExt(mkByte(a, k, w - k), w); }
  return intern(EK_LShr, w, 0, a, b, nullptr, 0);
}
E mkAShr(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, foldBin(EK_AShr, w, a->cval, b->cval));
  if (isC(b)) { if (b->cval == 0) return a; unsigned k = b->cval >= w ? w - 1 : (unsigned)b->cval; return mkSExt(mkByte(a, k, w - k), w); }
  if (nonNeg(a)) return mkLShr(a, b);
  return intern(EK_AShr, w, 0, a, b, nullptr, 0);
}
E mkEq(E a, E b) {
  unsigned w = a->width;
  if (a == b) return T();
  if (isC(a) && isC(b)) return B(a->cval == b->cval);
  if (isC(a)) { E t = a; a = b; b = t; }
  if (w == 1) { if (isC(b)) return b->cval ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F();
  if (isC(b)) {
    u128 c = b->cval;
    switch (a->kind) {
      case EK_ZExt: if (c >> a->k[0]->width) return F(); return mkEq(a->k[0], mkConst(a->k[0]->width, c));
      case EK_SExt: { E t = mkConst(a->k[0]->width, c); if ((u128)sx(t->cval, t->width) % 1 == 0 && (((u128)sx(t->cval, t->width)) & maskw(w)) != c) return F(); return mkEq(a->k[0], t); }
      case EK_Concat: { unsigned lw = a->k[1]->width; E l = mkEq(a->k[1], mkConst(lw, c)); if (isFalse(l)) return l; return mkAnd(mkEq(a->k[0], mkConst(w - lw, c >> lw)), l); }
      case EK_Add: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, c - a->k[1]->cval)); break;
      case EK_Sub: if (isC(a->k[0])) return mkEq(a->k[1], mkConst(w, a->k[0]->cval - c)); if (c == 0) return mkEq(a->k[0], a->k[1]); break;
      case EK_Xor: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, c ^ a->k[1]->cval)); if (c == 0) return mkEq(a->k[0], a->k[1]); break;
      case EK_Not: return mkEq(a->k[0], mkConst(w, ~c));
      case EK_Or: if (c == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b)); break;
      case EK_Ite:
        if (isC(a->k[1])) { return a->k[1] == b ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkAnd(mkNot(a->k[0]), mkEq(a->k[2], b)); }
        if (isC(a->k[2])) { return a->k[2] == b ? mkOr(mkNot(a->k[0]), mkEq(a->k[1], b)) : mkAnd(a->k[0], mkEq(a->k[1], b)); }
        break;
      default: break;
    }
  } else {
    if (a->kind == EK_ZExt && b->kind == EK_ZExt) {
      unsigned m = a->k[0]->width > b->k[0]->width ? a->k[0]->width : b->k[0]->width;
      return mkEq(mkZExt(a->k[0], m), mkZExt(b->k[0], m));
    }
    if (a->kind == EK_Concat && b->kind == EK_Concat && a->k[1]->width == b->k[1]->width)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->kind == EK_Add && b->kind == EK_Add) {
      if (a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
      if (a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    }
    if (a->id > b->id) { E t = a; a = b; b = t; }
  }
  return intern(EK_Eq, 1, 0, a, b, nullptr, 0);
}
E mkUlt(E a, E b) {
  unsigned w = a->width;
  if (a == b) return F();
  if (isC(a) && isC(b)) return B(a->cval < b->cval);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (w <= 64) { if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return F(); }
  if (isC(b)) {
    if (b->cval == 0) return F();
    if (b->cval == 1) return mkEq(a, mkConst(w, 0));
    if (a->kind == EK_ZExt) { if (b->cval >> a->k[0]->width) return T(); return mkUlt(a->k[0], mkConst(a->k[0]->width, b->cval)); }
    if (a->kind == EK_Concat) { // split on high part when low bits of b are zero
      unsigned lw = a->k[1]->width; if ((b->cval & maskw(lw)) == 0) return mkUlt(a->k[0], mkConst(w - lw, b->cval >> lw)); }
  }
  if (isC(a)) {
    if (a->cval == 0) return mkNot(mkEq(b, a));
    if (a->cval == maskw(w)) return F();
    if (b->kind == EK_ZExt) { if (a->cval >> b->k[0]->width) return F(); return mkUlt(mkConst(b->k[0]->width, a->cval), b->k[0]); }
    if (b->kind == EK_Concat) { unsigned lw = b->k[1]->width; if ((a->cval & maskw(lw)) == maskw(lw)) return mkUlt(mkConst(w - lw, a->cval >> lw), b->k[0]); }
  }
  if (a->kind == EK_ZExt && b->kind == EK_ZExt) {
    unsigned m = a->k[0]->width > b->k[0]->width ? a->k[0]->width : b->k[0]->width;
    return mkUlt(mkZExt(a->k[0], m), mkZExt(b->k[0], m));
  }
  if (isC(b) && a->kind == EK_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (isC(a) && b->kind == EK_Ite && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return intern(EK_Ult, 1, 0, a, b, nullptr, 0);
}
E mkSlt(E a, E b) {
  unsigned w = a->width;
  if (a == b) return F();
  if (isC(a) && isC(b)) return B(sx(a->cval, w) < sx(b->cval, w));
  if (nonNeg(a) && nonNeg(b)) return mkUlt(a, b);
  if (w == 1) return mkAnd(a, mkNot(b));
  if (isC(b) && b->cval == 0) return mkEq(mkByte(a, w - 1, 1), mkConst(1, 1));
  if (isC(a) && a->cval == maskw(w)) return mkEq(mkByte(b, w - 1, 1), mkConst(1, 0));
  if (isC(b) && iteC(a)) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (isC(a) && iteC(b)) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  if (a->kind == EK_SExt && b->kind == EK_SExt && a->k[0]->width == b->k[0]->width) return mkSlt(a->k[0], b->k[0]);
  return intern(EK_Slt, 1, 0, a, b, nullptr, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->cval ? a : b;
  if (a == b) return a;
  if (c->kind == EK_Not) return mkIte(c->k[0], b, a);
  if (a->width == 1) {
    if (isC(a)) return a->cval ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->cval ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->kind == EK_Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->kind == EK_Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->kind == EK_Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return intern(EK_Ite, a->width, 0, c, a, b, 0);
}

static u128 evalRec(E e, const Model& m) {
  if (e->kind == EK_Const) return e->cval;
  if (e->evModel == m.id) return e->evVal;
  u128 r = 0;
  switch (e->kind) {
    case EK_Var: r = e->aux < m.v.size() ? m.v[e->aux] : 0; break;
    case EK_Not: r = ~evalRec(e->k[0], m) & maskw(e->width); break;
    case EK_Concat: r = (evalRec(e->k[0], m) << e->k[1]->width) | evalRec(e->k[1], m); break;
    case EK_Extract: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->width); break;
    case EK_ZExt: r = evalRec(e->k[0], m); break;
    case EK_SExt: r = (u128)sx(evalRec(e->k[0], m), e->k[0]->width) & maskw(e->width); break;
    case EK_Ite: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case EK_Eq: case EK_Ult: case EK_Slt: r = foldBin(e->kind, e->k[0]->width, evalRec(e->k[0], m), evalRec(e->k[1], m)); break;
    default: r = foldBin(e->kind, e->width, evalRec(e->k[0], m), evalRec(e->k[1], m)); break;
  }
  e->evModel = m.id; e->evVal = r;
  return r;
}
u128 evalExpr(E e, const Model& m) { return evalRec(e, m); }

std::string exprStr(E e, int depth) {
  static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","slt","concat","extract","zext","sext","ite"};
  char b[64];
  if (e->kind == EK_Const) { snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->cval, e->width); return b; }
  if (e->kind == EK_Var) { snprintf(b, sizeof b, "v%u", e->aux); return b; }
  if (depth == 0) return "...";
  std::string s = "("; s += nm[e->kind];
  if (e->kind == EK_Extract) { snprintf(b, sizeof b, "[%u+%u]", e->aux, e->width); s += b; }
  else if (e->kind == EK_ZExt || e->kind == EK_SExt) { snprintf(b, sizeof b, ":%u", e->width); s += b; }
  for (int i = 0; i < e->nk; i++) { s += " "; s += exprStr(e->k[i], depth - 1); }
  return s + ")";
}
