// Bit-vector expression DAG: hash-consed, simplified on construction, with unsigned intervals.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <memory>
#include <string>

typedef unsigned __int128 u128;

enum EKind : uint8_t {
  EK_Const, EK_Var, EK_Add, EK_Sub, EK_Mul, EK_UDiv, EK_SDiv, EK_URem, EK_SRem,
  EK_And, EK_Or, EK_Xor, EK_Not, EK_Shl, EK_LShr, EK_AShr,
  EK_Eq, EK_Ult, EK_Slt, EK_Concat, EK_Extract, EK_ZExt, EK_SExt, EK_Ite
};

struct Expr {
  EKind kind;
  uint8_t width;      // 1..128
  uint8_t nk;
  uint32_t aux;       // Extract: offset; Var: id
  uint32_t hash;
  uint32_t id;
  const Expr* k[3];
  u128 cval;          // Const
  uint64_t lo, hi;    // unsigned interval (width<=64)
  mutable uint64_t evModel;
  mutable u128 evVal;
  mutable void* zbv;  // Z3 translation memo
  mutable void* zbool;
  mutable int32_t varset; // interned var set or -1
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct Model { uint64_t id; std::vector<uint8_t> v; };
typedef std::shared_ptr<const Model> ModelP;

E mkConst(unsigned w, u128 v);
E mkVar(uint32_t id);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b);
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned off, unsigned w);  // pushes through arithmetic when profitable
E mkByte(E e, unsigned off, unsigned w);     // for memory: never splits arithmetic nodes
E mkZExt(E e, unsigned w); E mkSExt(E e, unsigned w);
E mkIte(E c, E a, E b);

static inline bool isC(E e) { return e->kind == EK_Const; }
static inline bool isTrue(E e) { return e->kind == EK_Const && e->cval == 1; }
static inline bool isFalse(E e) { return e->kind == EK_Const && e->cval == 0; }

u128 evalExpr(E e, const Model& m);
uint64_t newModelId();
size_t exprCount();
std::string exprStr(E e, int depth = 6);
E rebuildSubst(E e, const std::vector<std::pair<uint32_t, uint8_t>>& binding);
