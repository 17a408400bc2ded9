#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>

std::vector<VarInfo> g_vars;

static std::deque<Expr> g_arena;
struct Key {
    Op op; uint16_t w; u128 k; E a, b, c;
    bool operator==(const Key& o) const { return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c; }
};
struct KeyHash {
    size_t operator()(const Key& x) const {
        u64 h = (u64)x.op * 0x9E3779B97F4A7C15ull + x.w;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((u64)x.k); mix((u64)(x.k >> 64));
        mix((u64)x.a); mix((u64)x.b); mix((u64)x.c);
        return h;
    }
};
static std::unordered_map<Key, E, KeyHash> g_tab;
static const VarSet g_empty;
struct VSHash { size_t operator()(const VarSet* v) const { u64 h = 7; for (auto x : *v) { h = h * 1000003 ^ x; } return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
static std::unordered_map<const VarSet*, const VarSet*, VSHash, VSEq> g_vs;

static const VarSet* internVS(VarSet&& v) {
    if (v.empty()) return &g_empty;
    auto it = g_vs.find(&v);
    if (it != g_vs.end()) return it->second;
    auto* n = new VarSet(std::move(v));
    g_vs[n] = n;
    return n;
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    VarSet r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return internVS(std::move(r));
}
u64 exprCount() { return g_arena.size(); }

static E intern(Op op, unsigned w, u128 k, E a = nullptr, E b = nullptr, E c = nullptr) {
    Key key{op, (uint16_t)w, k, a, b, c};
    auto it = g_tab.find(key);
    if (it != g_tab.end()) return it->second;
    g_arena.emplace_back();
    Expr& e = g_arena.back();
    e.op = op; e.w = w; e.k = k; e.a = a; e.b = b; e.c = c;
    e.id = g_arena.size() - 1;
    e.fp = op >= FADD; e.undef = false;
    e.vars = &g_empty;
    for (E x : {a, b, c})
        if (x) { e.fp |= x->fp; e.undef |= x->undef; e.vars = unionVS(e.vars, x->vars); }
    if (op == VAR) {
        e.vars = internVS(VarSet{(uint32_t)k});
        e.undef = g_vars[(size_t)k].undef;
    }
    g_tab.emplace(key, &e);
    return &e;
}

E mkConst(u128 v, unsigned w) {
    v &= maskw(w);
    if (w <= 64 && v < 256) {
        static E cache[65][256];
        E& s = cache[w][(unsigned)v];
        if (!s) s = intern(CONST, w, v);
        return s;
    }
    return intern(CONST, w, v);
}
E E_true() { return mkConst(1, 1); }
E E_false() { return mkConst(0, 1); }
E mkVar(const std::string& name, unsigned w, bool undef) {
    g_vars.push_back({name, w, undef});
    return intern(VAR, w, g_vars.size() - 1);
}

/* ---------- concrete semantics ---------- */
static float f32(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double f64(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static u128 b32(float f) { if (std::isnan(f)) return 0x7fc00000u; uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 b64(double f) { if (std::isnan(f)) return 0x7ff8000000000000ull; u64 x; memcpy(&x, &f, 8); return x; }

template<class F> static F fop(Op op, F a, F b) {
    switch (op) {
    case FADD: return a + b;
    case FSUB: return a - b;
    case FMUL: return a * b;
    case FDIV: return a / b;
    case FMIN: return std::isnan(a) ? b : std::isnan(b) ? a : (a < b ? a : b);
    case FMAX: return std::isnan(a) ? b : std::isnan(b) ? a : (a > b ? a : b);
    default: abort();
    }
}
u128 evalBin(Op op, u128 a, u128 b, unsigned w, unsigned wb) {
    u128 m = maskw(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (u128)(0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case SREM: {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: return (u128)(sxt(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sxt(a, w) < sxt(b, w);
    case SLE: return sxt(a, w) <= sxt(b, w);
    case CONCAT: return ((a << wb) | b) & maskw(w + wb);
    case FADD: case FSUB: case FMUL: case FDIV: case FMIN: case FMAX:
        return w == 32 ? b32(fop<float>(op, f32(a), f32(b))) : b64(fop<double>(op, f64(a), f64(b)));
    case FEQ: return w == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
    case FLT: return w == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
    case FLE: return w == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
    default: fprintf(stderr, "evalBin op %d\n", op); abort();
    }
}
u128 evalUn(Op op, u128 a, unsigned wa, unsigned w, unsigned k) {
    switch (op) {
    case FSQRT: return w == 32 ? b32(std::sqrt(f32(a))) : b64(std::sqrt(f64(a)));
    case FTOSI: {
        double d = wa == 32 ? (double)f32(a) : f64(a);
        // x86 semantics: cvttss2si/cvttsd2si yield the "integer indefinite" value when out of range
        unsigned ew = w <= 32 ? 32 : 64;
        double lim = std::ldexp(1.0, ew - 1);
        if (std::isnan(d) || d >= lim || std::trunc(d) < -lim) return ((u128)1 << (ew - 1)) & maskw(w);
        return (u128)(i128)(i64)d & maskw(w);
    }
    case FTOUI: {
        double d = wa == 32 ? (double)f32(a) : f64(a);
        if (std::isnan(d) || std::trunc(d) < 0 || d >= std::ldexp(1.0, w)) return maskw(w) & ((u128)1 << (w - 1));
        return (u128)(u64)d & maskw(w);
    }
    case SITOF: { i64 v = (i64)sxt(a, wa); return w == 32 ? b32((float)v) : b64((double)v); }
    case UITOF: { u64 v = (u64)a; return w == 32 ? b32((float)v) : b64((double)v); }
    case FTOF: return w == 64 ? b64((double)f32(a)) : b32((float)f64(a));
    case FRND: {
        double d = w == 32 ? (double)f32(a) : f64(a), r;
        switch (k) {
        case 0: r = std::nearbyint(d); break;
        case 1: r = std::round(d); break;
        case 2: r = std::trunc(d); break;
        case 3: r = std::ceil(d); break;
        default: r = std::floor(d); break;
        }
        return w == 32 ? b32((float)r) : b64(r);
    }
    default: abort();
    }
}

/* ---------- smart constructors ---------- */
static bool isCmp(Op op) { return (op >= EQ && op <= SLE) || op == FEQ || op == FLT || op == FLE; }
static unsigned resW(Op op, E a, E b) { return isCmp(op) ? 1 : op == CONCAT ? a->w + b->w : a->w; }

E mkNot(E a) {
    if (a->is_const()) return mkConst(~a->k, a->w);
    if (a->op == XOR && a->b->is_const() && a->b->k == maskw(a->w)) return a->a;
    // push negation into integer comparisons (canonical form)
    if (a->w == 1) {
        if (a->op == ULT) return mkBin(ULE, a->b, a->a);
        if (a->op == ULE) return mkBin(ULT, a->b, a->a);
        if (a->op == SLT) return mkBin(SLE, a->b, a->a);
        if (a->op == SLE) return mkBin(SLT, a->b, a->a);
        if (a->op == ITE) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
    }
    return intern(XOR, a->w, 0, a, mkConst(~(u128)0, a->w));
}
static bool isNotOf(E x, E y) { return x->op == XOR && x->a == y && x->b->is_const() && x->b->k == maskw(x->w); }

E mkIte(E c, E a, E b) {
    if (c->is_const()) return c->k ? a : b;
    if (a == b) return a;
    if (isNotOf(c, c->a ? c->a : c)) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->is_true() && b->is_false()) return c;
        if (a->is_false() && b->is_true()) return mkNot(c);
        if (a->is_true()) return mkOr(c, b);
        if (a->is_false()) return mkAnd(mkNot(c), b);
        if (b->is_true()) return mkOr(mkNot(c), a);
        if (b->is_false()) return mkAnd(c, a);
    }
    if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
    if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
    if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    return intern(ITE, a->w, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->is_const()) return mkConst(a->k >> lo, w);
    switch (a->op) {
    case EXTRACT: return mkExtract(a->a, lo + (unsigned)a->k, w);
    case CONCAT:
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        return mkBin(CONCAT, mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ZEXT:
        if (lo >= a->a->w) return mkConst(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkSext(a->a, w);
        break;
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case ITE:
        if (a->b->is_const() || a->c->is_const()) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    return intern(EXTRACT, w, lo, a);
}
E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return mkExtract(a, 0, w);
    if (a->is_const()) return mkConst(a->k, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    return intern(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return mkExtract(a, 0, w);
    if (a->is_const()) return mkConst((u128)sxt(a->k, a->w), w);
    if (a->op == SEXT) return mkSext(a->a, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    return intern(SEXT, w, 0, a);
}

static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD || op == FMUL || op == FEQ; }

// upper bound of an unsigned expression, cheap syntactic analysis
static u128 umaxOf(E e, int d = 4) {
    if (e->is_const()) return e->k;
    if (d == 0) return maskw(e->w);
    switch (e->op) {
    case ZEXT: return umaxOf(e->a, d - 1);
    case AND: { u128 x = umaxOf(e->a, d - 1), y = umaxOf(e->b, d - 1); return x < y ? x : y; }
    case UREM: if (e->b->is_const() && e->b->k) { u128 x = umaxOf(e->a, d - 1); return x < e->b->k - 1 ? x : e->b->k - 1; } break;
    case UDIV: if (e->b->is_const() && e->b->k) return umaxOf(e->a, d - 1) / e->b->k; break;
    case LSHR: if (e->b->is_const() && e->b->k < e->w) return umaxOf(e->a, d - 1) >> (unsigned)e->b->k; break;
    case ITE: { u128 x = umaxOf(e->b, d - 1), y = umaxOf(e->c, d - 1); return x > y ? x : y; }
    case ADD: { u128 x = umaxOf(e->a, d - 1), y = umaxOf(e->b, d - 1); if (e->w < 120 && x + y <= maskw(e->w)) return x + y; break; }
    case MUL: { u128 x = umaxOf(e->a, d - 1), y = umaxOf(e->b, d - 1); if (x < ((u128)1 << 60) && y < ((u128)1 << 60) && x * y <= maskw(e->w)) return x * y; break; }
    case OR: { u128 x = umaxOf(e->a, d - 1) | umaxOf(e->b, d - 1); u128 m = 1; while (m && m <= x) m <<= 1; return m - 1; }
    default: break;
    }
    return maskw(e->w);
}

unsigned knownLowZeros(E e) {
    switch (e->op) {
    case CONST: { unsigned n = 0; while (n < e->w && !((e->k >> n) & 1)) n++; return n; }
    case SHL: if (e->b->is_const()) return std::min<u64>(e->w, knownLowZeros(e->a) + (u64)e->b->k); return knownLowZeros(e->a);
    case MUL: return std::min<unsigned>(e->w, knownLowZeros(e->a) + knownLowZeros(e->b));
    case ADD: case SUB: case OR: case XOR: return std::min(knownLowZeros(e->a), knownLowZeros(e->b));
    case AND: return std::max(knownLowZeros(e->a), knownLowZeros(e->b));
    case ZEXT: case SEXT: return std::min<unsigned>(knownLowZeros(e->a), e->a->w);
    case ITE: return std::min(knownLowZeros(e->b), knownLowZeros(e->c));
    case CONCAT: { unsigned n = knownLowZeros(e->b); return n == e->b->w ? n + knownLowZeros(e->a) : n; }
    default: return 0;
    }
}

E mkBin(Op op, E a, E b) {
    if (op != CONCAT && a->w != b->w && !(op == SHL || op == LSHR || op == ASHR)) {
        fprintf(stderr, "width mismatch op %d: %u vs %u\n", op, a->w, b->w);
        abort();
    }
    unsigned w = resW(op, a, b);
    if (a->is_const() && b->is_const()) return mkConst(evalBin(op, a->k, b->k, a->w, b->w), w);
    if (commut(op) && (a->is_const() || (!b->is_const() && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    if ((op == AND || op == OR || op == XOR) && a->op == ZEXT) { // narrow the operation
        if (b->op == ZEXT && b->a->w == a->a->w) return mkZext(mkBin(op, a->a, b->a), w);
        if (b->is_const() && (op == AND || b->k <= maskw(a->a->w))) return mkZext(mkBin(op, a->a, mkConst(b->k, a->a->w)), w);
    }
    switch (op) {
    case ADD:
        if (b->is_const()) {
            if (b->k == 0) return a;
            if (a->op == ADD && a->b->is_const()) return mkBin(ADD, a->a, mkConst(a->b->k + b->k, w));
            if (a->op == ITE && a->b->is_const() && a->c->is_const())
                return mkIte(a->a, mkBin(ADD, a->b, b), mkBin(ADD, a->c, b));
        } else {
            if (a->op == ADD && a->b->is_const()) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
            if (b->op == ADD && b->b->is_const()) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
            if (b->op == SUB && b->b == a) return b->a;
            if (a->op == SUB && a->b == b) return a->a;
        }
        if (w == 1) return mkBin(XOR, a, b);
        break;
    case SUB:
        if (a == b) return mkConst(0, w);
        if (b->is_const()) return mkBin(ADD, a, mkConst(0 - b->k, w));
        if (a->op == ADD) {
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
            if (a->b->is_const()) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        }
        if (b->op == ADD && b->b->is_const()) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst(0 - b->b->k, w));
        if (b->op == ADD) {
            if (b->a == a) return mkBin(SUB, mkConst(0, w), b->b);
            if (b->b == a) return mkBin(SUB, mkConst(0, w), b->a);
        }
        if (b->op == SUB && b->a == a) return b->b;
        break;
    case MUL:
        if (b->is_const()) {
            if (b->k == 0) return b;
            if (b->k == 1) return a;
            if (a->op == MUL && a->b->is_const()) return mkBin(MUL, a->a, mkConst(a->b->k * b->k, w));
            if (a->op == ITE && a->b->is_const() && a->c->is_const())
                return mkIte(a->a, mkBin(MUL, a->b, b), mkBin(MUL, a->c, b));
            if ((b->k & (b->k - 1)) == 0) {
                unsigned s = 0;
                while (((b->k >> s) & 1) == 0) s++;
                return mkBin(SHL, a, mkConst(s, w));
            }
        }
        break;
    case UDIV:
        if (b->is_const()) {
            if (b->k == 1) return a;
            if (b->k && (b->k & (b->k - 1)) == 0) {
                unsigned s = 0;
                while (((b->k >> s) & 1) == 0) s++;
                return mkBin(LSHR, a, mkConst(s, w));
            }
            if (b->k && umaxOf(a) < b->k) return mkConst(0, w);
        }
        break;
    case UREM:
        if (b->is_const()) {
            if (b->k == 1) return mkConst(0, w);
            if (b->k && (b->k & (b->k - 1)) == 0) return mkBin(AND, a, mkConst(b->k - 1, w));
            if (b->k && umaxOf(a) < b->k) return a;
        }
        break;
    case SDIV:
        if (b->is_const() && b->k == 1) return a;
        if (b->is_const() && sxt(b->k, w) > 0 && umaxOf(a) < ((u128)1 << (w - 1))) return mkBin(UDIV, a, b);
        break;
    case SREM:
        if (b->is_const() && b->k == 1) return mkConst(0, w);
        if (b->is_const() && sxt(b->k, w) > 0 && umaxOf(a) < ((u128)1 << (w - 1))) return mkBin(UREM, a, b);
        break;
    case AND:
        if (a == b) return a;
        if (b->is_const()) {
            if (b->k == 0) return b;
            if (b->k == m) return a;
            if (a->op == AND && a->b->is_const()) return mkBin(AND, a->a, mkConst(a->b->k & b->k, w));
            if (a->op == ZEXT && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
            // mask of low bits
            if (((b->k + 1) & b->k) == 0) {
                unsigned n = 0;
                while ((b->k >> n) & 1) n++;
                return mkZext(mkExtract(a, 0, n), w);
            }
        }
        if (w == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, 1);
            if (a->op == AND && (a->a == b || a->b == b)) return a;
            if (b->op == AND && (b->a == a || b->b == a)) return b;
            if (a->op == OR && (a->a == b || a->b == b)) return b;
            if (b->op == OR && (b->a == a || b->b == a)) return a;
        }
        break;
    case OR:
        if (a == b) return a;
        if (b->is_const()) {
            if (b->k == 0) return a;
            if (b->k == m) return b;
        }
        if (w == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(1, 1);
            if (a->op == OR && (a->a == b || a->b == b)) return a;
            if (b->op == OR && (b->a == a || b->b == a)) return b;
            if (a->op == AND && (a->a == b || a->b == b)) return b;
            if (b->op == AND && (b->a == a || b->b == a)) return a;
        }
        break;
    case XOR:
        if (a == b) return mkConst(0, w);
        if (b->is_const()) {
            if (b->k == 0) return a;
            if (b->k == m) return mkNot(a);
            if (a->op == XOR && a->b->is_const()) return mkBin(XOR, a->a, mkConst(a->b->k ^ b->k, w));
        }
        break;
    case SHL:
        if (b->is_const()) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->k;
            return mkBin(CONCAT, mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case LSHR:
        if (b->is_const()) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->k;
            return mkZext(mkExtract(a, s, w - s), w);
        }
        break;
    case ASHR:
        if (b->is_const()) {
            if (b->k == 0) return a;
            unsigned s = b->k >= w ? w - 1 : (unsigned)b->k;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    case CONCAT:
        if (a->is_const() && a->k == 0) return mkZext(b, w);
        if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && (unsigned)a->k == (unsigned)b->k + b->w)
            return mkExtract(a->a, (unsigned)b->k, w);
        // (x ++ extract(y,hi)) ++ extract(y,lo)
        if (a->op == ITE && b->op == ITE && a->a == b->a) // a selected value that went through memory byte by byte
            return mkIte(a->a, mkBin(CONCAT, a->b, b->b), mkBin(CONCAT, a->c, b->c));
        if (a->op == CONCAT && a->b->op == EXTRACT && b->op == EXTRACT && a->b->a == b->a && (unsigned)a->b->k == (unsigned)b->k + b->w)
            return mkBin(CONCAT, a->a, mkExtract(b->a, (unsigned)b->k, a->b->w + b->w));
        if (a->op == ZEXT && a->a->op == EXTRACT && b->op == EXTRACT && a->a->a == b->a && (unsigned)a->a->k == (unsigned)b->k + b->w)
            return mkZext(mkExtract(b->a, (unsigned)b->k, a->a->w + b->w), w);
        if (a->op == ZEXT) return mkZext(mkBin(CONCAT, a->a, b), w);
        if (a->op == CONCAT && a->b->is_const() && b->is_const())
            return mkBin(CONCAT, a->a, mkBin(CONCAT, a->b, b));
        // reassemble a value split by byte stores: extract(a, lo=b->w) ++ low part of the same expression
        if (a->op == EXTRACT && (unsigned)a->k == b->w && mkExtract(a->a, 0, b->w) == b) return mkExtract(a->a, 0, w);
        break;
    case EQ:
        if (a == b) return mkConst(1, 1);
        if (a->w == 1 && b->is_const()) return b->k ? a : mkNot(a);
        if (b->is_const()) {
            if (a->op == ADD && a->b->is_const()) return mkEq(a->a, mkConst(b->k - a->b->k, a->w));
            if (a->op == XOR && a->b->is_const()) return mkEq(a->a, mkConst(b->k ^ a->b->k, a->w));
            if (a->op == ZEXT) {
                if (b->k >> a->a->w) return mkConst(0, 1);
                return mkEq(a->a, mkConst(b->k, a->a->w));
            }
            if (a->op == SEXT) {
                u128 lowv = b->k & maskw(a->a->w);
                if (((u128)sxt(lowv, a->a->w) & maskw(a->w)) != b->k) return mkConst(0, 1);
                return mkEq(a->a, mkConst(lowv, a->a->w));
            }
            if (a->op == ITE && (a->b->is_const() || a->c->is_const())) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
            if (a->op == CONCAT) {
                E lo = mkEq(a->b, mkConst(b->k, a->b->w));
                E hi = mkEq(a->a, mkConst(b->k >> a->b->w, a->a->w));
                return mkAnd(hi, lo);
            }
            if (umaxOf(a) < b->k) return mkConst(0, 1);
        } else {
            if (a->op == ADD && b->op == ADD && a->b == b->b) return mkEq(a->a, b->a);
            if (a->op == ADD && a->a == b && a->b->is_const()) return mkConst(0, 1);
            if (b->op == ADD && b->a == a && b->b->is_const()) return mkConst(0, 1);
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        }
        break;
    case ULT:
        if (a == b) return mkConst(0, 1);
        if (b->is_const()) {
            if (b->k == 0) return mkConst(0, 1);
            if (b->k == 1) return mkEq(a, mkConst(0, a->w));
            if (umaxOf(a) < b->k) return mkConst(1, 1);
            if (a->op == ZEXT) { if (b->k >> a->a->w) return mkConst(1, 1); return mkBin(ULT, a->a, mkConst(b->k, a->a->w)); }
            if (a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkBin(ULT, a->b, b), mkBin(ULT, a->c, b));
        }
        if (a->is_const()) {
            if (a->k == maskw(a->w)) return mkConst(0, 1);
            if (a->k == 0) return mkNot(mkEq(b, mkConst(0, a->w)));
            if (umaxOf(b) <= a->k) return mkConst(0, 1);
            if (b->op == ZEXT) { if (a->k >> b->a->w) return mkConst(0, 1); return mkBin(ULT, mkConst(a->k, b->a->w), b->a); }
            if (b->op == ITE && b->b->is_const() && b->c->is_const()) return mkIte(b->a, mkBin(ULT, a, b->b), mkBin(ULT, a, b->c));
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
        break;
    case ULE:
        if (a == b) return mkConst(1, 1);
        if (b->is_const()) {
            if (b->k == maskw(a->w)) return mkConst(1, 1);
            return mkBin(ULT, a, mkConst(b->k + 1, a->w));
        }
        if (a->is_const()) {
            if (a->k == 0) return mkConst(1, 1);
            return mkBin(ULT, mkConst(a->k - 1, a->w), b);
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
        break;
    case SLT: case SLE: {
        if (a == b) return mkConst(op == SLE, 1);
        u128 half = (u128)1 << (a->w - 1);
        if (a->w > 1 && umaxOf(a) < half && umaxOf(b) < half) return mkBin(op == SLT ? ULT : ULE, a, b);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        if (op == SLT && b->is_const() && b->k == half) return mkConst(0, 1);
        if (op == SLT && a->is_const() && a->k == half - 1) return mkConst(0, 1);
        if (op == SLE && b->is_const() && b->k != half - 1) return mkBin(SLT, a, mkConst(b->k + 1, a->w));
        if (op == SLE && b->is_const()) return mkConst(1, 1);
        if (op == SLE && a->is_const() && a->k != half) return mkBin(SLT, mkConst(a->k - 1, a->w), b);
        if (op == SLE && a->is_const()) return mkConst(1, 1);
        if (b->is_const() && a->op == SEXT && a->a->w > 1) {
            i128 v = sxt(b->k, b->w), hi = ((i128)1 << (a->a->w - 1));
            if (v >= hi) return mkConst(1, 1);
            if (v < -hi) return mkConst(0, 1);
            return mkBin(op, a->a, mkConst((u128)v, a->a->w));
        }
        if (a->is_const() && b->op == SEXT && b->a->w > 1) {
            i128 v = sxt(a->k, a->w), hi = ((i128)1 << (b->a->w - 1));
            if (v >= hi) return mkConst(0, 1);
            if (v < -hi) return mkConst(1, 1);
            return mkBin(op, mkConst((u128)v, b->a->w), b->a);
        }
        if (b->is_const() && a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (a->is_const() && b->op == ITE && b->b->is_const() && b->c->is_const()) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
        break;
    }
    case FADD: case FSUB: case FMUL: case FDIV:
        if (b->is_const() && a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (a->is_const() && b->op == ITE && b->b->is_const() && b->c->is_const()) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
        break;
    default: break;
    }
    return intern(op, w, 0, a, b);
}
E mkUn(Op op, E a, unsigned w, unsigned k) {
    if (a->is_const()) return mkConst(evalUn(op, a->k, a->w, w, k), w);
    if (op == FTOF && a->op == FTOF && w == 32 && a->a->w == 32) return a->a; // float->double->float is exact (modulo NaN payload)
    if (op == FRND && a->op == FRND) return a;
    if (a->op == ITE && a->b->is_const() && a->c->is_const()) return mkIte(a->a, mkUn(op, a->b, w, k), mkUn(op, a->c, w, k));
    if (op == SITOF && a->op == ZEXT && a->a->w < a->w) return mkUn(UITOF, a, w, k);
    return intern(op, w, k, a);
}

/* ---------- evaluation ---------- */
static std::vector<u128> ev_val;
static std::vector<uint32_t> ev_stamp;
static uint32_t ev_cur = 0;
static u128 evalRec(E e, const Model& m) {
    if (e->op == CONST) return e->k;
    if (ev_stamp[e->id] == ev_cur) return ev_val[e->id];
    u128 r;
    switch (e->op) {
    case VAR: r = m.get((uint32_t)e->k) & maskw(e->w); break;
    case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case EXTRACT: r = (evalRec(e->a, m) >> (unsigned)e->k) & maskw(e->w); break;
    case ZEXT: r = evalRec(e->a, m); break;
    case SEXT: r = (u128)sxt(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case FSQRT: case FTOSI: case FTOUI: case SITOF: case UITOF: case FTOF: case FRND:
        r = evalUn(e->op, evalRec(e->a, m), e->a->w, e->w, (unsigned)e->k); break;
    default: {
        u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
        r = evalBin(e->op, x, y, e->a->w, e->b->w);
    }
    }
    ev_stamp[e->id] = ev_cur;
    ev_val[e->id] = r;
    return r;
}
u128 evalExpr(E e, const Model& m) {
    if (e->is_const()) return e->k;
    if (ev_stamp.size() < g_arena.size()) {
        ev_stamp.resize(g_arena.size() * 2 + 1024, 0);
        ev_val.resize(g_arena.size() * 2 + 1024);
    }
    if (++ev_cur == 0) { std::fill(ev_stamp.begin(), ev_stamp.end(), 0); ev_cur = 1; }
    return evalRec(e, m);
}
std::string exprStr(E e, int d) {
    static const char* n[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "==", "u<", "u<=", "s<", "s<=", "ite", "++", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "fsqrt", "fmin", "fmax", "f==", "f<", "f<=", "ftosi", "ftoui", "sitof", "uitof", "ftof", "frnd"};
    if (e->is_const()) { char b[40]; snprintf(b, 40, "%llu:%u", (unsigned long long)e->k, e->w); return b; }
    if (e->op == VAR) return g_vars[(size_t)e->k].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + n[e->op];
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    if (e->op == EXTRACT) s += " @" + std::to_string((unsigned)e->k) + ":" + std::to_string(e->w);
    return s + ")";
}
