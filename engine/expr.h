// Hash-consed bit-vector / IEEE-754 expression DAG used by the symbolic executor.
// Floating point values are carried as their IEEE bit pattern; FP operators map bits to bits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    FADD, FSUB, FMUL, FDIV, FSQRT, FMIN, FMAX,
    FEQ, FLT, FLE,
    FTOSI, FTOUI, SITOF, UITOF, FTOF,
    FRND // k: 0 RNE, 1 RNA(round), 2 RTZ(trunc), 3 RTP(ceil), 4 RTN(floor)
};

struct Expr;
typedef std::vector<uint32_t> VarSet; // sorted

struct Expr {
    Op op;
    bool fp; // contains an FP operator somewhere below
    bool undef; // depends on an uninitialised value
    uint16_t w;
    uint32_t id;
    u128 k; // constant / var index / extract low bit / rounding mode
    const Expr *a, *b, *c;
    const VarSet* vars;
    bool is_const() const { return op == CONST; }
    bool is_true() const { return op == CONST && w == 1 && k == 1; }
    bool is_false() const { return op == CONST && w == 1 && k == 0; }
};
typedef const Expr* E;

struct VarInfo {
    std::string name;
    unsigned w;
    bool undef;
};
extern std::vector<VarInfo> g_vars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    v &= maskw(w);
    if (v >> (w - 1)) v |= ~maskw(w);
    return (i128)v;
}

E mkConst(u128 v, unsigned w);
static inline E mkBool(bool b) { return mkConst(b, 1); }
E mkVar(const std::string& name, unsigned w, bool undef = false);
E mkBin(Op op, E a, E b); // arithmetic, logic, comparison, concat, FP binary
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a); // 1-bit (or bitwise) not
E mkUn(Op op, E a, unsigned w, unsigned k = 0); // FSQRT, FTOSI, FTOUI, SITOF, UITOF, FTOF, FRND
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
static inline E mkNe(E a, E b) { return mkNot(mkBin(EQ, a, b)); }
static inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
static inline E mkAdd(E a, E b) { return mkBin(ADD, a, b); }
/// number of low bits known to be zero
unsigned knownLowZeros(E e);

/// concrete semantics shared by the constant folder and the model evaluator
u128 evalBin(Op op, u128 a, u128 b, unsigned wa, unsigned wb);
u128 evalUn(Op op, u128 a, unsigned wa, unsigned w, unsigned k);

struct Model {
    std::unordered_map<uint32_t, u128> v;
    u128 get(uint32_t i) const {
        auto it = v.find(i);
        return it == v.end() ? 0 : it->second;
    }
};
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
u64 exprCount();
E E_true();
E E_false();
