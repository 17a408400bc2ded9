#include "solver.h"
#include <algorithm>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstring>
#include <fstream>
#include <z3++.h>
#include <unordered_set>

SolverStats g_ss;
unsigned g_query_timeout_ms = 60000;
std::string g_dump_dir;

static z3::context* C;
static z3::solver* S_bv;
static std::unordered_map<uint32_t, z3::expr>* bvc; // bit-vector (or Bool for w==1) translation
static std::unordered_map<uint32_t, z3::expr>* fpc; // FP translation
static std::unordered_map<uint32_t, z3::expr>* boolc;

void solverInit() {
    C = new z3::context();
    S_bv = new z3::solver(*C, "QF_BV");
    bvc = new std::unordered_map<uint32_t, z3::expr>();
    fpc = new std::unordered_map<uint32_t, z3::expr>();
    boolc = new std::unordered_map<uint32_t, z3::expr>();
}

static z3::expr toBV(E e);
static z3::expr toBool(E e);
static z3::sort fpsort(unsigned w) { return w == 32 ? C->fpa_sort<32>() : C->fpa_sort<64>(); }
static z3::expr rm(unsigned k) {
    Z3_ast a;
    switch (k) {
    case 0: a = Z3_mk_fpa_rne(*C); break;
    case 1: a = Z3_mk_fpa_rna(*C); break;
    case 2: a = Z3_mk_fpa_rtz(*C); break;
    case 3: a = Z3_mk_fpa_rtp(*C); break;
    default: a = Z3_mk_fpa_rtn(*C); break;
    }
    return z3::expr(*C, a);
}
static z3::expr mk(Z3_ast a) {
    C->check_error();
    return z3::expr(*C, a);
}
static z3::expr toFP(E e) {
    auto it = fpc->find(e->id);
    if (it != fpc->end()) return it->second;
    z3::expr r(*C);
    switch (e->op) {
    case FADD: r = mk(Z3_mk_fpa_add(*C, rm(0), toFP(e->a), toFP(e->b))); break;
    case FSUB: r = mk(Z3_mk_fpa_sub(*C, rm(0), toFP(e->a), toFP(e->b))); break;
    case FMUL: r = mk(Z3_mk_fpa_mul(*C, rm(0), toFP(e->a), toFP(e->b))); break;
    case FDIV: r = mk(Z3_mk_fpa_div(*C, rm(0), toFP(e->a), toFP(e->b))); break;
    case FMIN: r = mk(Z3_mk_fpa_min(*C, toFP(e->a), toFP(e->b))); break;
    case FMAX: r = mk(Z3_mk_fpa_max(*C, toFP(e->a), toFP(e->b))); break;
    case FSQRT: r = mk(Z3_mk_fpa_sqrt(*C, rm(0), toFP(e->a))); break;
    case FRND: r = mk(Z3_mk_fpa_round_to_integral(*C, rm((unsigned)e->k), toFP(e->a))); break;
    case FTOF: r = mk(Z3_mk_fpa_to_fp_float(*C, rm(0), toFP(e->a), fpsort(e->w))); break;
    case SITOF: r = mk(Z3_mk_fpa_to_fp_signed(*C, rm(0), toBV(e->a), fpsort(e->w))); break;
    case UITOF: r = mk(Z3_mk_fpa_to_fp_unsigned(*C, rm(0), toBV(e->a), fpsort(e->w))); break;
    case ITE: r = z3::ite(toBool(e->a), toFP(e->b), toFP(e->c)); break;
    case XOR: // sign flip
        if (e->b->is_const() && e->b->k == ((u128)1 << (e->w - 1)) && e->a->fp) { r = mk(Z3_mk_fpa_neg(*C, toFP(e->a))); break; }
        r = mk(Z3_mk_fpa_to_fp_bv(*C, toBV(e), fpsort(e->w)));
        break;
    case ZEXT: // fabs: sign bit cleared
        if (e->a->op == EXTRACT && e->a->k == 0 && e->a->w == e->w - 1 && e->a->a->fp) { r = mk(Z3_mk_fpa_abs(*C, toFP(e->a->a))); break; }
        [[fallthrough]];
    default: r = mk(Z3_mk_fpa_to_fp_bv(*C, toBV(e), fpsort(e->w)));
    }
    fpc->emplace(e->id, r);
    return r;
}
static z3::expr toBool(E e) {
    auto it = boolc->find(e->id);
    if (it != boolc->end()) return it->second;
    z3::expr r(*C);
    switch (e->op) {
    case CONST: r = C->bool_val(e->k != 0); break;
    case EQ: r = e->a->w == 1 ? (toBool(e->a) == toBool(e->b)) : (toBV(e->a) == toBV(e->b)); break;
    case ULT: r = z3::ult(toBV(e->a), toBV(e->b)); break;
    case ULE: r = z3::ule(toBV(e->a), toBV(e->b)); break;
    case SLT: r = toBV(e->a) < toBV(e->b); break;
    case SLE: r = toBV(e->a) <= toBV(e->b); break;
    case FEQ: r = mk(Z3_mk_fpa_eq(*C, toFP(e->a), toFP(e->b))); break;
    case FLT: r = mk(Z3_mk_fpa_lt(*C, toFP(e->a), toFP(e->b))); break;
    case FLE: r = mk(Z3_mk_fpa_leq(*C, toFP(e->a), toFP(e->b))); break;
    case AND: r = toBool(e->a) && toBool(e->b); break;
    case OR: r = toBool(e->a) || toBool(e->b); break;
    case XOR: r = e->b->is_true() ? !toBool(e->a) : (toBool(e->a) != toBool(e->b)); break;
    case ITE: r = z3::ite(toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = (toBV(e) == C->bv_val(1, 1));
    }
    boolc->emplace(e->id, r);
    return r;
}
static z3::expr constBV(u128 v, unsigned w) {
    if (w <= 64) return C->bv_val((uint64_t)v, w);
    z3::expr hi = C->bv_val((uint64_t)(v >> 64), w - 64), lo = C->bv_val((uint64_t)v, 64);
    return z3::concat(hi, lo).simplify();
}
static z3::expr toBV(E e) {
    auto it = bvc->find(e->id);
    if (it != bvc->end()) return it->second;
    z3::expr r(*C);
    switch (e->op) {
    case CONST: r = constBV(e->k, e->w); break;
    case VAR: r = C->bv_const(("v" + std::to_string((u64)e->k)).c_str(), e->w); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: case FEQ: case FLT: case FLE:
        r = z3::ite(toBool(e), C->bv_val(1, 1), C->bv_val(0, 1)); break;
    case ADD: r = toBV(e->a) + toBV(e->b); break;
    case SUB: r = toBV(e->a) - toBV(e->b); break;
    case MUL: r = toBV(e->a) * toBV(e->b); break;
    case UDIV: r = z3::udiv(toBV(e->a), toBV(e->b)); break;
    case SDIV: r = toBV(e->a) / toBV(e->b); break;
    case UREM: r = z3::urem(toBV(e->a), toBV(e->b)); break;
    case SREM: r = z3::srem(toBV(e->a), toBV(e->b)); break;
    case AND: r = e->w == 1 ? z3::ite(toBool(e), C->bv_val(1, 1), C->bv_val(0, 1)) : (toBV(e->a) & toBV(e->b)); break;
    case OR: r = e->w == 1 ? z3::ite(toBool(e), C->bv_val(1, 1), C->bv_val(0, 1)) : (toBV(e->a) | toBV(e->b)); break;
    case XOR: r = e->w == 1 ? z3::ite(toBool(e), C->bv_val(1, 1), C->bv_val(0, 1)) : (toBV(e->a) ^ toBV(e->b)); break;
    case SHL: r = z3::shl(toBV(e->a), toBV(e->b)); break;
    case LSHR: r = z3::lshr(toBV(e->a), toBV(e->b)); break;
    case ASHR: r = z3::ashr(toBV(e->a), toBV(e->b)); break;
    case ITE: r = z3::ite(toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case CONCAT: r = z3::concat(toBV(e->a), toBV(e->b)); break;
    case EXTRACT: r = toBV(e->a).extract((unsigned)e->k + e->w - 1, (unsigned)e->k); break;
    case ZEXT: r = z3::zext(toBV(e->a), e->w - e->a->w); break;
    case SEXT: r = z3::sext(toBV(e->a), e->w - e->a->w); break;
    case FTOSI: {
        unsigned ew = e->w <= 32 ? 32 : 64, fw = e->a->w;
        z3::expr f = toFP(e->a);
        z3::expr conv = mk(Z3_mk_fpa_to_sbv(*C, rm(2), f, ew));
        // in range: -2^(ew-1)-1 < f < 2^(ew-1) after truncation; outside: x86 integer-indefinite
        double lim = ew == 32 ? 2147483648.0 : 9223372036854775808.0;
        auto fc = [&](double d) { return toFP(mkConst(fw == 32 ? evalUn(FTOF, ({ u64 b; memcpy(&b, &d, 8); (u128)b; }), 64, 32, 0) : ({ u64 b; memcpy(&b, &d, 8); (u128)b; }), fw)); };
        z3::expr tr = mk(Z3_mk_fpa_round_to_integral(*C, rm(2), f));
        z3::expr ok = mk(Z3_mk_fpa_lt(*C, f, fc(lim))) && mk(Z3_mk_fpa_geq(*C, tr, fc(-lim)));
        r = z3::ite(ok, conv, constBV((u128)1 << (ew - 1), ew));
        if (e->w < ew) r = r.extract(e->w - 1, 0);
        break;
    }
    case FTOUI: {
        z3::expr f = toFP(e->a);
        z3::expr conv = mk(Z3_mk_fpa_to_ubv(*C, rm(2), f, e->w));
        double hi = e->w == 64 ? 18446744073709551616.0 : (double)((u64)1 << e->w);
        unsigned fw = e->a->w;
        auto fc = [&](double d) { return toFP(mkConst(fw == 32 ? evalUn(FTOF, ({ u64 b; memcpy(&b, &d, 8); (u128)b; }), 64, 32, 0) : ({ u64 b; memcpy(&b, &d, 8); (u128)b; }), fw)); };
        z3::expr tr = mk(Z3_mk_fpa_round_to_integral(*C, rm(2), f));
        z3::expr ok = mk(Z3_mk_fpa_lt(*C, f, fc(hi))) && mk(Z3_mk_fpa_geq(*C, tr, fc(0.0)));
        r = z3::ite(ok, conv, constBV((u128)1 << (e->w - 1), e->w));
        break;
    }
    default: r = mk(Z3_mk_fpa_to_ieee_bv(*C, toFP(e)));
    }
    bvc->emplace(e->id, r);
    return r;
}

std::vector<E> sliceFor(const std::vector<E>& pc, E q) {
    std::vector<E> out;
    size_t n = pc.size();
    static std::vector<char> inV;
    static std::vector<uint32_t> touched;
    inV.resize(g_vars.size() + 1, 0);
    touched.clear();
    auto addv = [&](E e) { for (auto v : *e->vars) if (!inV[v]) { inV[v] = 1; touched.push_back(v); } };
    addv(q);
    std::vector<char> used(n, 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < n; i++) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : *pc[i]->vars) if (inV[v]) { hit = true; break; }
            if (hit) {
                used[i] = 1; ch = true;
                addv(pc[i]);
            }
        }
    }
    for (size_t i = 0; i < n; i++) if (used[i]) out.push_back(pc[i]);
    for (auto v : touched) inV[v] = 0;
    return out;
}

struct VHash { size_t operator()(const std::vector<uint32_t>& v) const { u64 h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, Model>, VHash> g_qc;

static void collectVars(const std::vector<E>& conj, std::vector<uint32_t>& vs) {
    for (E e : conj) vs.insert(vs.end(), e->vars->begin(), e->vars->end());
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
}
static u128 bvNumeral(const z3::expr& v, unsigned w) {
    if (w <= 64) { uint64_t x = 0; if (v.is_numeral_u64(x)) return x; }
    std::string s = Z3_get_numeral_string(*C, v);
    u128 r = 0;
    for (char ch : s) if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0');
    return r;
}
static Res runSolver(z3::solver& s, const std::vector<E>& conj, unsigned tmo, Model* out) {
    z3::params p(*C);
    p.set("timeout", tmo);
    s.set(p);
    s.push();
    Res res;
    try {
        for (E e : conj) s.add(toBool(e));
        z3::check_result r = s.check();
        res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
        if (res == Res::SAT && out) {
            z3::model m = s.get_model();
            std::vector<uint32_t> vs;
            collectVars(conj, vs);
            for (auto v : vs) {
                z3::expr x = C->bv_const(("v" + std::to_string(v)).c_str(), g_vars[v].w);
                out->v[v] = bvNumeral(m.eval(x, true), g_vars[v].w);
            }
        }
    } catch (z3::exception& ex) {
        res = Res::UNKNOWN;
    }
    s.pop();
    return res;
}

/* Integer encoding: queries with division or remainder by constants are hopeless for bit-blasting at 64 bits but easy
 * as linear integer arithmetic. Every bit-vector term becomes the integer of its two's complement value; interval
 * arithmetic (seeded by the bounds in the query) shows that an operation cannot wrap, otherwise the wrap is explicit. */
struct IntEnc {
    struct V { z3::expr e; i128 lo, hi; };
    z3::solver& s;
    std::unordered_map<uint32_t, V> memo;
    std::unordered_map<uint32_t, z3::expr> bmemo;
    std::unordered_map<uint32_t, std::pair<i128, i128>> bound;
    struct Unsupported {};
    int fresh = 0;
    explicit IntEnc(z3::solver& s) : s(s) {}
    static i128 smin(unsigned w) { return -((i128)1 << (w - 1)); }
    static i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
    z3::expr num(i128 v) {
        bool neg = v < 0;
        u128 u = neg ? (u128)0 - (u128)v : (u128)v;
        std::string t;
        do { t.insert(t.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
        if (neg) t.insert(t.begin(), '-');
        return C->int_val(t.c_str());
    }
    z3::expr freshInt(i128 lo, i128 hi) {
        z3::expr r = C->int_const(("k!" + std::to_string(fresh++)).c_str());
        s.add(r >= num(lo) && r <= num(hi));
        return r;
    }
    static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
    V wrap(z3::expr e, i128 lo, i128 hi, unsigned w) { // bring into the signed range of w bits
        if (lo >= smin(w) && hi <= smax(w)) return {e, lo, hi};
        i128 m = (i128)1 << w;
        i128 klo = fdiv(lo - smin(w), m), khi = fdiv(hi - smin(w), m);
        if (klo == khi) return {e - num(klo * m), lo - klo * m, hi - klo * m};
        z3::expr k = freshInt(klo, khi);
        z3::expr r = e - num(m) * k;
        s.add(r >= num(smin(w)) && r <= num(smax(w)));
        return {r, smin(w), smax(w)};
    }
    V uns(E x) { // value read as unsigned
        V v = get(x);
        if (v.lo >= 0) return v;
        i128 m = (i128)1 << x->w;
        if (v.hi < 0) return {v.e + num(m), v.lo + m, v.hi + m};
        return {z3::ite(v.e < 0, v.e + num(m), v.e), 0, m - 1};
    }
    // floor division by a positive constant; remainder in *rem
    V floorDiv(const V& a, i128 d, V* rem) {
        i128 qlo = fdiv(a.lo, d), qhi = fdiv(a.hi, d);
        z3::expr q = qlo == qhi ? num(qlo) : freshInt(qlo, qhi);
        z3::expr r = a.e - num(d) * q;
        s.add(r >= 0 && r < num(d));
        if (rem) *rem = {r, 0, d - 1};
        return {q, qlo, qhi};
    }
    virtual ~IntEnc() {}
    std::unordered_map<uint32_t, bool> facts; // conjuncts of the query
    void fact(E c) {
        if (c->op == AND && c->w == 1) { fact(c->a); fact(c->b); return; }
        if (c->op == XOR && c->w == 1 && c->b->is_true()) facts[c->a->id] = false;
        else facts[c->id] = true;
    }
    E known(E ite) { // the branch that the conjuncts select
        auto it = facts.find(ite->a->id);
        if (it != facts.end()) return it->second ? ite->b : ite->c;
        if (ite->a->op == XOR && ite->a->b->is_true() && (it = facts.find(ite->a->a->id)) != facts.end()) return it->second ? ite->c : ite->b;
        return nullptr;
    }
    virtual V get(E e) {
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        if (e->w > 64) throw Unsupported();
        V r = make(e);
        memo.emplace(e->id, r);
        return r;
    }
    virtual V make(E e) {
        unsigned w = e->w;
        auto both = [&](V& a, V& b) { a = get(e->a); b = get(e->b); };
        switch (e->op) {
        case CONST: { i128 v = sxt(e->k, w); return {num(v), v, v}; }
        case VAR: {
            z3::expr x = C->int_const(("i" + std::to_string((u64)e->k)).c_str());
            auto b = bound.count(e->id) ? bound[e->id] : std::make_pair(smin(w), smax(w));
            s.add(x >= num(b.first) && x <= num(b.second));
            return {x, b.first, b.second};
        }
        case ADD: { V a = get(e->a), b = get(e->b); return wrap(a.e + b.e, a.lo + b.lo, a.hi + b.hi, w); }
        case SUB: { V a = get(e->a), b = get(e->b); return wrap(a.e - b.e, a.lo - b.hi, a.hi - b.lo, w); }
        case MUL: case SHL: {
            if (!e->b->is_const()) throw Unsupported();
            V a = get(e->a);
            i128 k;
            if (e->op == SHL) { if (e->b->k >= w) return {num(0), 0, 0}; k = (i128)1 << (unsigned)e->b->k; }
            else k = sxt(e->b->k, w);
            if (k == 0) return {num(0), 0, 0};
            i128 lim = ((i128)1 << 126) / (k < 0 ? -k : k);
            if (a.lo < -lim || a.hi > lim) throw Unsupported();
            return k > 0 ? wrap(a.e * num(k), a.lo * k, a.hi * k, w) : wrap(a.e * num(k), a.hi * k, a.lo * k, w);
        }
        case SDIV: case SREM: {
            if (!e->b->is_const()) throw Unsupported();
            i128 d0 = sxt(e->b->k, w), d = d0 < 0 ? -d0 : d0;
            if (d0 == 0) throw Unsupported();
            V a = get(e->a);
            // |a| = q*d + r
            V abs = a;
            if (a.hi <= 0) abs = {-a.e, -a.hi, -a.lo};
            else if (a.lo < 0) abs = {z3::ite(a.e < 0, -a.e, a.e), 0, a.hi > -a.lo ? a.hi : -a.lo};
            V r{num(0), 0, 0}, q = floorDiv(abs, d, &r);
            V v = e->op == SDIV ? q : r;
            bool flip = e->op == SDIV && d0 < 0; // sign of the quotient is that of a, times that of d
            auto neg = [&](const V& x) { return V{-x.e, -x.hi, -x.lo}; };
            V o = a.lo >= 0 ? v : a.hi <= 0 ? neg(v) : V{z3::ite(a.e < 0, -v.e, v.e), -v.hi, v.hi};
            if (flip) o = neg(o);
            return wrap(o.e, o.lo, o.hi, w);
        }
        case UDIV: case UREM: {
            if (!e->b->is_const() || e->b->k == 0) throw Unsupported();
            V r{num(0), 0, 0}, q = floorDiv(uns(e->a), (i128)e->b->k, &r);
            V v = e->op == UDIV ? q : r;
            return wrap(v.e, v.lo, v.hi, w);
        }
        case LSHR: {
            if (!e->b->is_const()) throw Unsupported();
            if (e->b->k >= w) return {num(0), 0, 0};
            V q = floorDiv(uns(e->a), (i128)1 << (unsigned)e->b->k, nullptr);
            return wrap(q.e, q.lo, q.hi, w);
        }
        case ASHR: {
            if (!e->b->is_const()) throw Unsupported();
            unsigned k = e->b->k >= w ? w - 1 : (unsigned)e->b->k;
            return floorDiv(get(e->a), (i128)1 << k, nullptr);
        }
        case XOR:
            if (e->b->is_const() && e->b->k == maskw(w)) { V a = get(e->a); return {num(-1) - a.e, -1 - a.hi, -1 - a.lo}; }
            throw Unsupported();
        case AND: {
            if (w == 1) break;
            // a mask of low bits
            if (e->b->is_const() && ((e->b->k + 1) & e->b->k) == 0 && e->b->k) {
                V r{num(0), 0, 0};
                floorDiv(uns(e->a), (i128)e->b->k + 1, &r);
                return wrap(r.e, r.lo, r.hi, w);
            }
            throw Unsupported();
        }
        case ITE: {
            if (E k = known(e)) return get(k);
            z3::expr c = boolOf(e->a);
            V a = get(e->b), b = get(e->c);
            return {z3::ite(c, a.e, b.e), a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi};
        }
        case ZEXT: { if (e->a->w == 1) return {z3::ite(boolOf(e->a), num(1), num(0)), 0, 1}; return uns(e->a); }
        case SEXT: { if (e->a->w == 1) return {z3::ite(boolOf(e->a), num(-1), num(0)), -1, 0}; return get(e->a); }
        case EXTRACT: {
            V v = e->k == 0 ? get(e->a) : floorDiv(get(e->a), (i128)1 << (unsigned)e->k, nullptr);
            return wrap(v.e, v.lo, v.hi, w);
        }
        case CONCAT: {
            V a = get(e->a), b = uns(e->b);
            i128 m = (i128)1 << e->b->w;
            return wrap(a.e * num(m) + b.e, a.lo * m + b.lo, a.hi * m + b.hi, w);
        }
        default: break;
        }
        if (w == 1) return {z3::ite(boolOf(e), num(-1), num(0)), -1, 0};
        throw Unsupported();
    }
    virtual z3::expr boolOf(E e) {
        auto it = bmemo.find(e->id);
        if (it != bmemo.end()) return it->second;
        z3::expr r(*C);
        switch (e->op) {
        case CONST: r = C->bool_val(e->k != 0); break;
        case EQ: r = e->a->w == 1 ? boolOf(e->a) == boolOf(e->b) : get(e->a).e == get(e->b).e; break;
        case SLT: r = get(e->a).e < get(e->b).e; break;
        case SLE: r = get(e->a).e <= get(e->b).e; break;
        case ULT: r = uns(e->a).e < uns(e->b).e; break;
        case ULE: r = uns(e->a).e <= uns(e->b).e; break;
        case AND: r = boolOf(e->a) && boolOf(e->b); break;
        case OR: r = boolOf(e->a) || boolOf(e->b); break;
        case XOR: r = e->b->is_true() ? !boolOf(e->a) : (boolOf(e->a) != boolOf(e->b)); break;
        case ITE: r = z3::ite(boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
        case VAR: case EXTRACT: r = get(e).e != 0; break;
        default: throw Unsupported();
        }
        bmemo.emplace(e->id, r);
        return r;
    }
    virtual void learn(E e) { // bounds of variables stated by a conjunct
        if (e->op == AND && e->w == 1) { learn(e->a); learn(e->b); return; }
        if (e->op != SLE && e->op != SLT && e->op != ULE && e->op != ULT && e->op != EQ) return;
        E a = e->a, b = e->b;
        bool strict = e->op == SLT || e->op == ULT, u = e->op == ULE || e->op == ULT;
        auto at = [&](E v) -> std::pair<i128, i128>& { return bound.try_emplace(v->id, smin(v->w), smax(v->w)).first->second; };
        if (a->op == VAR && b->is_const() && a->w > 1 && a->w <= 64) {
            i128 k = u ? (i128)b->k : sxt(b->k, b->w);
            if (u && k > smax(a->w)) return;
            if (e->op == EQ) { k = sxt(b->k, b->w); at(a) = {k, k}; return; }
            auto& p = at(a);
            p.second = std::min(p.second, strict ? k - 1 : k);
            if (u) p.first = std::max(p.first, (i128)0);
        } else if (b->op == VAR && a->is_const() && b->w > 1 && b->w <= 64 && !u && e->op != EQ) {
            i128 k = sxt(a->k, a->w);
            auto& p = at(b);
            p.first = std::max(p.first, strict ? k + 1 : k);
        }
    }
};
static bool hasDivision(E e, std::unordered_map<uint32_t, bool>& seen) {
    if (!e || e->is_const() || e->op == VAR) return false;
    auto it = seen.find(e->id);
    if (it != seen.end()) return it->second;
    bool r = (e->op >= UDIV && e->op <= SREM && e->w >= 16) || hasDivision(e->a, seen) || hasDivision(e->b, seen) || hasDivision(e->c, seen);
    return seen[e->id] = r;
}
// sums of wide variables: chains of adders are hard to bit-blast and trivial for the simplex
static unsigned wideSums(E e, std::unordered_map<uint32_t, bool>& seen) {
    if (!e || e->is_const() || e->op == VAR || !seen.emplace(e->id, true).second) return 0;
    return ((e->op == ADD || e->op == SUB) && e->w > 32 && !e->b->is_const()) + wideSums(e->a, seen) + wideSums(e->b, seen) + wideSums(e->c, seen);
}
static Res runInt(const std::vector<E>& conj, unsigned tmo, Model* out) {
    try {
        z3::solver s(*C, "QF_LIA");
        z3::params p(*C);
        p.set("timeout", tmo);
        s.set(p);
        IntEnc enc(s);
        for (E e : conj) enc.learn(e);
        for (auto& b : enc.bound) if (b.second.first > b.second.second) return Res::UNSAT;
        for (E e : conj) s.add(enc.boolOf(e));
        z3::check_result r = s.check();
        if (r == z3::unsat) return Res::UNSAT;
        if (r != z3::sat) return Res::UNKNOWN;
        if (out) {
            z3::model m = s.get_model();
            std::vector<uint32_t> vs;
            collectVars(conj, vs);
            for (auto v : vs) {
                z3::expr x = m.eval(C->int_const(("i" + std::to_string(v)).c_str()), true);
                std::string t = Z3_get_numeral_string(*C, x);
                bool neg = !t.empty() && t[0] == '-';
                u128 n = 0;
                for (char ch : t) if (ch >= '0' && ch <= '9') n = n * 10 + (u128)(ch - '0');
                if (neg) n = (u128)0 - n;
                out->v[v] = n & maskw(g_vars[v].w);
            }
        }
        return Res::SAT;
    } catch (IntEnc::Unsupported&) {
        return Res::UNKNOWN;
    } catch (z3::exception&) {
        return Res::UNKNOWN;
    }
}

/* Real encoding of floating point: every FP term that is provably finite becomes a real; an operation is exact where
 * interval and granularity (multiple of 2^g) show that no rounding happens, otherwise the result is the exact value plus
 * an error term within half an ulp of the largest magnitude (and a result keeps the sign of the exact value, since
 * rounding is monotone and zero representable). Products of two unknowns are bounded by their McCormick envelope. What
 * cannot be expressed becomes an unconstrained boolean. All of this only adds behaviours: UNSAT here is UNSAT;
 * a model counts only if it satisfies the query under our own IEEE evaluator. */
static std::string decDouble(std::string t, unsigned times) { // decimal t * 2^times
    for (; times; times--) {
        int carry = 0;
        for (size_t i = t.size(); i-- > 0;) {
            int d = (t[i] - '0') * 2 + carry;
            t[i] = (char)('0' + d % 10);
            carry = d / 10;
        }
        if (carry) t.insert(t.begin(), '1');
    }
    return t;
}
static z3::expr realNum(long double v) {
    if (v == 0) return C->real_val(0);
    bool neg = v < 0;
    int ex;
    long double m = frexpl(neg ? -v : v, &ex); // v = m * 2^ex, 0.5 <= m < 1
    u64 mant = (u64)ldexpl(m, 64);
    ex -= 64;
    while (!(mant & 1)) { mant >>= 1; ex++; }
    std::string t = std::to_string(mant);
    if (ex > 0) t = decDouble(t, ex);
    else if (ex < 0) {
        static std::unordered_map<int, std::string> pw;
        auto& q = pw[-ex];
        if (q.empty()) q = decDouble("1", -ex);
        t += "/" + q;
    }
    if (neg) t = "-" + t;
    return C->real_val(t.c_str());
}
static long double fpValue(u128 bits, unsigned w) {
    if (w == 32) { uint32_t b = (uint32_t)bits; float f; memcpy(&f, &b, 4); return f; }
    u64 b = (u64)bits; double d; memcpy(&d, &b, 8); return d;
}
struct RealEnc : IntEnc {
    static constexpr int NOG = INT_MIN;
    // a multiple of 2^g unless g is NOG; a value of the format of width fmt; +- the result of rounding number rnd
    struct F { z3::expr e; long double lo, hi; int g; unsigned fmt = 64; int rnd = -1; };
    struct Rnd { z3::expr q, r; unsigned w; };
    std::vector<Rnd> rnds;
    bool mono = false; // rounding is monotone: add that where rounded values are compared
    std::unordered_set<uint32_t> number; // variables that are not NaN
    std::unordered_map<uint32_t, F> fm;
    std::unordered_map<uint32_t, std::pair<long double, long double>> fb; // bounds of FP variables
    std::unordered_map<u64, F> prods;
    std::vector<E> order; // FLE/FLT between variables
    bool weak = false;
    bool rel = false; // relative instead of absolute rounding errors: tighter, with a case split for each
    int slack = 0; // look for models away from rounding: comparisons differ by at least 2^-slack of the largest magnitude
    std::vector<uint32_t> fvars;
    struct Contradiction {};
    explicit RealEnc(z3::solver& s) : IntEnc(s) {}
    static long double dn(long double v) { return nextafterl(v, -INFINITY); }
    static long double up(long double v) { return nextafterl(v, INFINITY); }
    static bool fpw(unsigned w) { return w == 32 || w == 64; }
    z3::expr freshReal() { return C->real_const(("r!" + std::to_string(fresh++)).c_str()); }
    z3::expr freshBool() { weak = true; return C->bool_const(("b!" + std::to_string(fresh++)).c_str()); }
    static int gOf(long double v) { // largest g with v a multiple of 2^g
        if (v == 0) return 4096;
        int ex;
        long double m = frexpl(fabsl(v), &ex);
        u64 mant = (u64)ldexpl(m, 64);
        return ex - 64 + __builtin_ctzll(mant);
    }
    static long double mag(const F& x) { return std::max(fabsl(x.lo), fabsl(x.hi)); }
    static long double prec(unsigned w) { return w == 32 ? 24 : 53; }
    // x holds the exact value of an operation; round to the format
    F round(F x, unsigned w, bool tiny, const F* a = nullptr, const F* b = nullptr) {
        long double m = mag(x);
        if (!(m < (w == 32 ? 3.4e38L : 1.7e308L))) throw Unsupported();
        int pr = (int)prec(w), ming = w == 32 ? -149 : -1074;
        x.fmt = w;
        x.rnd = -1;
        if (x.g != NOG && x.g >= ming && m <= ldexpl(1.0L, std::min(x.g, 8000) + pr)) return x;
        long double err = up(ldexpl(m, -pr));
        if (tiny) err = up(err + ldexpl(1.0L, ming - 1));
        { // a short number
            int ex;
            frexpl(err, &ex);
            err = ldexpl(1.0L, std::max(ex, -40));
        }
        z3::expr r = freshReal(), q = x.e;
        if (slack) s.add(r == q);
        else if (!rel) {
            s.add(r - q <= realNum(err) && q - r <= realNum(err));
            if (x.lo >= 0) s.add(r >= 0);
            if (x.hi <= 0) s.add(r <= 0);
        }
        else { // relative error, and the absolute one of the subnormal range
            long double u = ldexpl(1.0L, -pr), t = tiny ? ldexpl(1.0L, ming - 1) : 0;
            z3::expr pos = q >= 0 && r >= 0 && r <= q * realNum(1 + u) + realNum(t) && r >= q * realNum(1 - u) - realNum(t);
            z3::expr ng = q <= 0 && r <= 0 && r >= q * realNum(1 + u) - realNum(t) && r <= q * realNum(1 - u) + realNum(t);
            if (x.lo >= 0) s.add(pos);
            else if (x.hi <= 0) s.add(ng);
            else s.add(pos || ng);
        }
        if (mono) { // equal values round equally, and larger ones not to smaller ones
            int n = 0;
            for (auto& o : rnds)
                if (o.w == w && n++ < 16) s.add(z3::implies(o.q <= q, o.r <= r) && z3::implies(o.q >= q, o.r >= r));
        }
        rnds.push_back({q, r, w});
        if (mono && a && a->fmt <= w && b->fmt <= w) { // a sum of opposite signs is exact within a factor of two (Sterbenz)
            z3::expr p = a->e, n = -b->e, two = C->real_val(2);
            s.add(z3::implies((n >= 0 && n <= two * p && p <= two * n) || (n <= 0 && n >= two * p && p >= two * n), r == q));
        }
        auto fits = [&](long double v) { return w == 32 ? (long double)(float)v == v : (long double)(double)v == v; };
        F o{r, fits(x.lo) ? x.lo : dn(x.lo - err), fits(x.hi) ? x.hi : up(x.hi + err), NOG, w, (int)rnds.size() - 1};
        if (!slack) { // rounding does not cross a value of the format
            if (fits(x.lo)) s.add(r >= realNum(x.lo));
            if (fits(x.hi)) s.add(r <= realNum(x.hi));
        }
        if (x.lo >= 0) o.lo = std::max(o.lo, 0.0L);
        if (x.hi <= 0) o.hi = std::min(o.hi, 0.0L);
        return o;
    }
    static bool point(const F& x) { return x.lo == x.hi; }
    F neg(const F& x) { return {-x.e, -x.hi, -x.lo, x.g, x.fmt, x.rnd}; }
    F mul(E ka, E kb, const F& a, const F& b) {
        long double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        long double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        int g = a.g == NOG || b.g == NOG ? NOG : std::min(a.g + b.g, 8000);
        if (point(a) || point(b)) { // linear
            bool ex = g != NOG && std::max(fabsl(lo), fabsl(hi)) <= ldexpl(1.0L, g + 60);
            return {a.e * b.e, ex ? lo : dn(lo), ex ? hi : up(hi), g};
        }
        u64 key = ka->id < kb->id ? ((u64)ka->id << 32 | kb->id) : ((u64)kb->id << 32 | ka->id);
        auto it = prods.find(key);
        if (it != prods.end()) return it->second;
        z3::expr r = freshReal();
        weak = true;
        auto n = [&](long double v) { return realNum(v); };
        s.add(r >= n(a.lo) * b.e + n(b.lo) * a.e - n(a.lo) * n(b.lo));
        s.add(r >= n(a.hi) * b.e + n(b.hi) * a.e - n(a.hi) * n(b.hi));
        s.add(r <= n(a.hi) * b.e + n(b.lo) * a.e - n(a.hi) * n(b.lo));
        s.add(r <= n(a.lo) * b.e + n(b.hi) * a.e - n(a.lo) * n(b.hi));
        if (ka == kb) { s.add(r >= 0); lo = std::max(lo, 0.0L); }
        F o{r, dn(lo), up(hi), g};
        prods.emplace(key, o);
        return o;
    }
    bool fpValued(E e) {
        if ((e->op >= FADD && e->op <= FMAX) || (e->op >= SITOF && e->op <= FRND)) return true;
        if (e->op == ITE) return fpValued(e->b) || fpValued(e->c);
        if (e->op == XOR) return e->b->is_const() && fpValued(e->a);
        if (e->op == ZEXT) return e->a->op == EXTRACT && e->a->k == 0 && e->a->w == e->w - 1 && fpValued(e->a->a);
        return e->op == VAR && fb.count(e->id);
    }
    F fget(E e) {
        auto it = fm.find(e->id);
        if (it != fm.end()) return it->second;
        F r = fmake(e);
        if (e->op != VAR && !e->is_const()) { // what the conditions say about it
            auto b = fb.find(e->id);
            if (b != fb.end()) { r.lo = std::max(r.lo, b->second.first); r.hi = std::min(r.hi, b->second.second); }
            if (r.lo > r.hi) throw Contradiction();
        }
        fm.emplace(e->id, r);
        return r;
    }
    F fmake(E e) {
        unsigned w = e->w;
        if (!fpw(w)) throw Unsupported();
        switch (e->op) {
        case CONST: {
            long double v = fpValue(e->k, w);
            if (!(fabsl(v) < INFINITY)) throw Unsupported();
            return {realNum(v), v, v, gOf(v), (float)v == v ? 32u : 64u};
        }
        case VAR: {
            auto b = fb.find(e->id);
            if (b == fb.end() || !(b->second.first > -INFINITY) || !(b->second.second < INFINITY)) throw Unsupported();
            z3::expr x = C->real_const(("f" + std::to_string((u64)e->k)).c_str());
            s.add(x >= realNum(b->second.first) && x <= realNum(b->second.second));
            fvars.push_back((uint32_t)e->k);
            return {x, b->second.first, b->second.second, w == 32 ? -149 : -1074, w};
        }
        case SITOF: case UITOF: {
            V v = e->op == SITOF ? get(e->a) : uns(e->a);
            z3::expr q = v.lo == v.hi ? realNum((long double)v.lo) : z3::to_real(v.e);
            F x{q, (long double)v.lo, (long double)v.hi, 0};
            if (mag(x) > 9e18L) { x.lo = dn(x.lo); x.hi = up(x.hi); }
            return round(x, w, false);
        }
        case FTOF: return e->w >= e->a->w ? fget(e->a) : round(fget(e->a), w, true);
        case FADD: case FSUB: {
            if (e->op == FSUB && e->b->id < e->a->id && e->a != e->b) return neg(fget(mkBin(FSUB, e->b, e->a)));
            F a = fget(e->a), b = fget(e->b);
            if (e->op == FSUB) {
                if (e->a == e->b) return {realNum(0), 0, 0, 4096, 32};
                b = neg(b);
            }
            int g = a.g == NOG || b.g == NOG ? NOG : std::min(a.g, b.g);
            long double lo = a.lo + b.lo, hi = a.hi + b.hi;
            bool ex = g != NOG && std::max(mag(a), mag(b)) <= ldexpl(1.0L, std::min(g, 8000) + 60);
            F x{a.e + b.e, ex ? lo : dn(lo), ex ? hi : up(hi), g};
            if (point(a) && point(b) && ex) x.e = realNum(lo);
            return round(x, w, false, &a, &b);
        }
        case FMUL: {
            F a = fget(e->a), b = fget(e->b);
            if ((a.lo == 0 && a.hi == 0) || (b.lo == 0 && b.hi == 0)) return {realNum(0), 0, 0, 4096, 32};
            return round(mul(e->a, e->b, a, b), w, true);
        }
        case FDIV: {
            F a = fget(e->a), b = fget(e->b);
            if (b.lo <= 0 && b.hi >= 0) throw Unsupported();
            if (a.lo == 0 && a.hi == 0) return {realNum(0), 0, 0, 4096, 32};
            if (point(b)) {
                int ex;
                long double m = frexpl(fabsl(b.lo), &ex);
                if (m == 0.5L) { // power of two
                    long double inv = 1.0L / b.lo;
                    F x{a.e * realNum(inv), b.lo > 0 ? a.lo * inv : a.hi * inv, b.lo > 0 ? a.hi * inv : a.lo * inv, a.g == NOG ? NOG : a.g + gOf(inv)};
                    return round(x, w, true);
                }
                long double p = a.lo / b.lo, q = a.hi / b.lo;
                F x{a.e / b.e, dn(std::min(p, q)), up(std::max(p, q)), NOG};
                return round(x, w, true);
            }
            long double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
            F q{freshReal(), dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4)), NOG};
            weak = true;
            s.add(q.e >= realNum(q.lo) && q.e <= realNum(q.hi));
            // a = q * b: envelope of the product, and |a| <= |b| gives |q| <= 1
            auto n = [&](long double v) { return realNum(v); };
            s.add(a.e >= n(q.lo) * b.e + n(b.lo) * q.e - n(q.lo) * n(b.lo));
            s.add(a.e >= n(q.hi) * b.e + n(b.hi) * q.e - n(q.hi) * n(b.hi));
            s.add(a.e <= n(q.hi) * b.e + n(b.lo) * q.e - n(q.hi) * n(b.lo));
            s.add(a.e <= n(q.lo) * b.e + n(b.hi) * q.e - n(q.lo) * n(b.hi));
            z3::expr pb = b.lo > 0 ? b.e : -b.e, sa = b.lo > 0 ? a.e : -a.e; // q = sa / pb
            s.add((sa >= 0) == (q.e >= 0) && (sa <= 0) == (q.e <= 0) && (sa <= pb) == (q.e <= 1) && (sa >= pb) == (q.e >= 1) &&
                  (sa >= -pb) == (q.e >= -1) && (sa <= -pb) == (q.e <= -1));
            F r = round(q, w, true);
            s.add(z3::implies(q.e <= 1, r.e <= 1) && z3::implies(q.e >= 1, r.e >= 1) && z3::implies(q.e >= -1, r.e >= -1) && z3::implies(q.e <= -1, r.e <= -1));
            return r;
        }
        case FSQRT: {
            F a = fget(e->a);
            if (a.lo < 0) throw Unsupported();
            F q{freshReal(), dn(sqrtl(a.lo)), up(sqrtl(a.hi)), NOG};
            if (q.lo < 0) q.lo = 0;
            weak = true;
            s.add(q.e >= realNum(q.lo) && q.e <= realNum(q.hi));
            { // a = q^2: below the chord, above the tangents
                auto n = [&](long double v) { return realNum(v); };
                s.add(a.e <= (n(q.lo) + n(q.hi)) * q.e - n(q.lo) * n(q.hi));
                for (long double t : {q.lo, q.hi, (q.lo + q.hi) / 2}) s.add(a.e >= n(2 * t) * q.e - n(t) * n(t));
            }
            return round(q, w, true);
        }
        case FMIN: case FMAX: {
            F a = fget(e->a), b = fget(e->b);
            bool mn = e->op == FMIN;
            z3::expr c = mn ? a.e <= b.e : a.e >= b.e;
            return {z3::ite(c, a.e, b.e), mn ? std::min(a.lo, b.lo) : std::max(a.lo, b.lo), mn ? std::min(a.hi, b.hi) : std::max(a.hi, b.hi),
                    a.g == NOG || b.g == NOG ? NOG : std::min(a.g, b.g), std::max(a.fmt, b.fmt)};
        }
        case FRND: {
            F a = fget(e->a);
            if (mag(a) > 1e17L) throw Unsupported();
            i128 lo = (i128)floorl(a.lo), hi = (i128)ceill(a.hi);
            z3::expr n = freshInt(lo, hi), r = z3::to_real(n);
            z3::expr half = C->real_val(1, 2);
            z3::expr fl = r <= a.e && a.e < r + 1, ce = r >= a.e && a.e > r - 1;
            switch ((int)e->k) {
            case 2: s.add(z3::ite(a.e >= 0, fl, ce)); break;
            case 3: s.add(ce); break;
            case 4: s.add(fl); break;
            case 1: s.add(z3::ite(a.e >= 0, r - half <= a.e && a.e < r + half, r - half < a.e && a.e <= r + half)); break;
            default: weak = true; s.add(r - half <= a.e && a.e <= r + half);
            }
            return {r, (long double)lo, (long double)hi, 0, a.fmt};
        }
        case ITE: {
            if (E k = known(e)) return fget(k);
            F a = fget(e->b), b = fget(e->c);
            if (e->a->op == FLT || e->a->op == FLE) { // a clamp keeps the tighter bounds of its branches
                F p = fget(e->a->a), q = fget(e->a->b);
                if (e->b == e->a->a) a.hi = std::min(a.hi, q.hi);
                if (e->b == e->a->b) a.lo = std::max(a.lo, p.lo);
                if (e->c == e->a->a) b.lo = std::max(b.lo, q.lo);
                if (e->c == e->a->b) b.hi = std::min(b.hi, p.hi);
                if (a.lo > a.hi) return b;
                if (b.lo > b.hi) return a;
            }
            return {z3::ite(boolOf(e->a), a.e, b.e), std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.g == NOG || b.g == NOG ? NOG : std::min(a.g, b.g), std::max(a.fmt, b.fmt)};
        }
        case XOR:
            if (e->b->is_const() && e->b->k == ((u128)1 << (w - 1))) return neg(fget(e->a));
            throw Unsupported();
        case ZEXT:
            if (e->a->op == EXTRACT && e->a->k == 0 && e->a->w == w - 1) {
                F a = fget(e->a->a);
                if (a.lo >= 0) return a;
                return {z3::ite(a.e >= 0, a.e, -a.e), a.hi <= 0 ? -a.hi : 0, mag(a), a.g, a.fmt, a.rnd};
            }
            throw Unsupported();
        default: throw Unsupported();
        }
    }
    V make(E e) override {
        if (e->op == FTOSI || e->op == FTOUI) {
            F a = fget(e->a);
            unsigned ew = e->op == FTOSI ? (e->w <= 32 ? 32 : 64) : e->w;
            long double l = e->op == FTOSI ? -ldexpl(1, ew - 1) : 0, h = e->op == FTOSI ? ldexpl(1, ew - 1) : ldexpl(1, ew);
            if (!(a.lo > l - 1 && a.hi < h)) throw Unsupported();
            i128 lo = (i128)truncl(a.lo), hi = (i128)truncl(a.hi);
            z3::expr n = freshInt(lo, hi), r = z3::to_real(n);
            z3::expr fl = r <= a.e && a.e < r + 1, ce = r >= a.e && a.e > r - 1;
            if (a.lo >= 0) s.add(fl);
            else if (a.hi <= 0) s.add(ce);
            else s.add(z3::ite(a.e >= 0, fl, ce));
            return wrap(n, lo, hi, e->w);
        }
        return IntEnc::make(e);
    }
    // rounding does not cross a value of the format
    void compared(const F& a, const F& b) {
        if (!mono || slack) return;
        for (auto& p : {std::make_pair(&a, &b), std::make_pair(&b, &a)}) {
            if (p.first->rnd < 0 || p.second->fmt > rnds[p.first->rnd].w) continue;
            Rnd x = rnds[p.first->rnd];
            for (z3::expr z : {p.second->e, -p.second->e})
                s.add(z3::implies(x.q <= z, x.r <= z) && z3::implies(x.q >= z, x.r >= z));
        }
    }
    z3::expr boolOf(E e) override {
        auto it = bmemo.find(e->id);
        if (it != bmemo.end()) return it->second;
        z3::expr r(*C);
        try {
            switch (e->op) {
            case FEQ: {
                F a = fget(e->a), b = fget(e->b);
                compared(a, b);
                r = a.e == b.e;
                break;
            }
            case FLT: case FLE: {
                F a = fget(e->a), b = fget(e->b);
                compared(a, b);
                r = e->op == FLT ? a.e < b.e : a.e <= b.e;
                if (slack && (a.g < -140 || b.g < -140)) {
                    z3::expr d = realNum(ldexpl(std::max(mag(a), mag(b)), -slack));
                    s.add(a.e - b.e >= d || b.e - a.e >= d);
                }
                break;
            }
            case EQ:
                if (fpw(e->a->w) && (fpValued(e->a) || fpValued(e->b))) { // equality of representations
                    z3::expr p = fget(e->a).e, q = fget(e->b).e;
                    r = freshBool();
                    s.add(z3::implies(r, p == q) && z3::implies(!r, p != q || p == 0));
                    break;
                }
                return IntEnc::boolOf(e);
            default: return IntEnc::boolOf(e);
            }
        } catch (Unsupported&) {
            r = freshBool();
        }
        bmemo.emplace(e->id, r);
        return r;
    }
    std::pair<long double, long double>& at(E v) { return fb.try_emplace(v->id, -INFINITY, INFINITY).first->second; }
    void learn(E e) override {
        if (e->op == AND && e->w == 1) { learn(e->a); learn(e->b); return; }
        if (e->op == FLE || e->op == FLT || e->op == FEQ) {
            if (e->a->op == VAR) number.insert(e->a->id);
            if (e->b->op == VAR) number.insert(e->b->id);
            below(e->a, e->b, e->op == FEQ);
            if (e->a->op == VAR && e->b->op == VAR) {
                order.push_back(e);
                at(e->a); at(e->b);
            }
            return;
        }
        IntEnc::learn(e);
    }
    void below(E a, E b, bool eq) {
        auto fin = [&](E c) { return c->is_const() && fabsl(fpValue(c->k, c->w)) < INFINITY; };
        if (fin(b) && !a->is_const()) {
            long double k = fpValue(b->k, b->w);
            auto& p = at(a);
            p.second = std::min(p.second, k);
            if (eq) p.first = std::max(p.first, k);
        } else if (fin(a) && !b->is_const()) {
            long double k = fpValue(a->k, a->w);
            auto& p = at(b);
            p.first = std::max(p.first, k);
            if (eq) p.second = std::min(p.second, k);
        }
    }
    // a comparison that does not hold says something only about numbers: variables known to be one, and
    // whatever the encoding accepts
    void learnNot(E e) {
        if (e->op == AND && e->w == 1) { learnNot(e->a); learnNot(e->b); return; }
        if (e->op != XOR || e->w != 1 || !e->b->is_true() || (e->a->op != FLE && e->a->op != FLT)) return;
        E a = e->a->a, b = e->a->b;
        if ((a->op == VAR && !number.count(a->id)) || (b->op == VAR && !number.count(b->id))) return;
        below(b, a, false);
    }
    void propagate() {
        for (int i = 0; i < 4; i++)
            for (E o : order) {
                auto &a = fb[o->a->id], &b = fb[o->b->id];
                a.second = std::min(a.second, b.second);
                b.first = std::max(b.first, a.first);
                if (o->op == FEQ) { b.second = std::min(a.second, b.second); a.first = std::max(b.first, a.first); }
            }
    }
};
static bool hasFpArith(E e, std::unordered_map<uint32_t, bool>& seen) {
    if (!e || !e->fp || !seen.emplace(e->id, true).second) return false;
    if ((e->op >= FADD && e->op <= FSQRT) || (e->op >= FTOSI && e->op <= FRND)) return true;
    return hasFpArith(e->a, seen) || hasFpArith(e->b, seen) || hasFpArith(e->c, seen);
}
static u128 numeralAbs(const std::string& t) {
    u128 n = 0;
    for (char ch : t) if (ch >= '0' && ch <= '9') n = n * 10 + (u128)(ch - '0');
    return t.size() && t[0] == '-' ? (u128)0 - n : n;
}
// *again: the model missed the query only by rounding
static Res runRealOnce(const std::vector<E>& conj, unsigned tmo, Model* out, bool rel, bool mono, int slack, bool* again) {
    try {
        z3::solver s(*C, "QF_LIRA");
        z3::params p(*C);
        p.set("timeout", tmo);
        s.set(p);
        RealEnc enc(s);
        enc.slack = slack;
        enc.rel = rel;
        enc.mono = mono;
        for (E e : conj) enc.fact(e);
        for (E e : conj) enc.learn(e);
        for (E e : conj) enc.learnNot(e);
        enc.propagate();
        for (auto& b : enc.bound) if (b.second.first > b.second.second) return Res::UNSAT;
        for (auto& b : enc.fb) if (b.second.first > b.second.second) return Res::UNSAT;
        for (E e : conj) s.add(enc.boolOf(e));
        z3::check_result r = s.check();
        if (getenv("SYMX_REAL")) { fprintf(stderr, "REAL %d weak=%d\n", (int)r, enc.weak); if (r != z3::unsat) for (E e : conj) fprintf(stderr, "   %s\n", exprStr(e, 14).c_str()); }
        if (r == z3::unsat) return slack ? Res::UNKNOWN : Res::UNSAT;
        if (r != z3::sat) return Res::UNKNOWN;
        z3::model m = s.get_model();
        std::vector<uint32_t> vs;
        collectVars(conj, vs);
        Model mm;
        for (auto v : vs) {
            bool isF = std::find(enc.fvars.begin(), enc.fvars.end(), v) != enc.fvars.end();
            if (isF) {
                double d = 0;
                std::string t = Z3_get_numeral_decimal_string(*C, m.eval(C->real_const(("f" + std::to_string(v)).c_str()), true), 60);
                d = strtod(t.c_str(), nullptr);
                u64 b;
                memcpy(&b, &d, 8);
                if (g_vars[v].w == 32) { float f = strtof(t.c_str(), nullptr); uint32_t c; memcpy(&c, &f, 4); b = c; }
                mm.v[v] = b;
            } else {
                mm.v[v] = numeralAbs(Z3_get_numeral_string(*C, m.eval(C->int_const(("i" + std::to_string(v)).c_str()), true))) & maskw(g_vars[v].w);
            }
        }
        for (E e : conj) if (!evalExpr(e, mm)) { *again = true; return Res::UNKNOWN; }
        if (out) for (auto& kv : mm.v) out->v[kv.first] = kv.second;
        return Res::SAT;
    } catch (RealEnc::Contradiction&) {
        return Res::UNSAT;
    } catch (IntEnc::Unsupported&) {
        return Res::UNKNOWN;
    } catch (z3::exception& ex) {
        return Res::UNKNOWN;
    }
}
// a condition within the query that its conjuncts do not decide
static E undecidedCond(const std::vector<E>& conj) {
    std::unordered_map<uint32_t, bool> facts;
    std::function<void(E)> fact = [&](E c) {
        if (c->op == AND && c->w == 1) { fact(c->a); fact(c->b); return; }
        facts[c->op == XOR && c->b->is_true() ? c->a->id : c->id] = true;
    };
    for (E c : conj) fact(c);
    std::unordered_set<uint32_t> seen;
    E found = nullptr;
    std::function<void(E)> walk = [&](E e) {
        if (found || !e->fp || !seen.insert(e->id).second) return;
        for (E x : {e->a, e->b, e->c}) if (x) walk(x);
        if (found || e->op != ITE || e->w == 1) return;
        E c = e->a->op == XOR && e->a->b->is_true() ? e->a->a : e->a;
        if ((c->op == FLT || c->op == FLE) && !facts.count(c->id)) found = c;
    };
    for (E c : conj) walk(c);
    return found;
}
static Res runReal(const std::vector<E>& conj, unsigned tmo, Model* out, int depth = 0) {
    bool again = false;
    Res r = runRealOnce(conj, tmo, out, false, false, 0, &again);
    if (r != Res::UNKNOWN) return r;
    if (again) { // maybe a real model, away from rounding
        for (int slack : {8, 14, 19})
            if ((r = runRealOnce(conj, tmo, out, false, false, slack, &again)) != Res::UNKNOWN) return r;
        if ((r = runRealOnce(conj, tmo, out, false, true, 0, &again)) != Res::UNKNOWN) return r;
        E c = depth < 3 ? undecidedCond(conj) : nullptr;
        if (c) {
            std::vector<E> t = conj, f = conj;
            t.push_back(c);
            f.push_back(mkNot(c));
            Res a = runReal(t, tmo, out, depth + 1);
            if (a == Res::SAT) return a;
            Res b = runReal(f, tmo, out, depth + 1);
            if (b == Res::SAT) return b;
            return a == Res::UNSAT && b == Res::UNSAT ? Res::UNSAT : Res::UNKNOWN;
        }
        if ((r = runRealOnce(conj, tmo, out, true, true, 0, &again)) != Res::UNKNOWN) return r;
    }
    return Res::UNKNOWN;
}

Res solverCheck(const std::vector<E>& conj0, Model* out) {
    std::vector<E> conj;
    bool fp = false;
    for (E e : conj0) {
        if (e->is_true()) continue;
        if (e->is_false()) return Res::UNSAT;
        conj.push_back(e);
        fp |= e->fp;
    }
    std::vector<uint32_t> key;
    for (E e : conj) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_qc.find(key);
    if (it != g_qc.end()) {
        g_ss.cache_hits++;
        if (it->second.first == Res::SAT && out) for (auto& kv : it->second.second.v) out->v[kv.first] = kv.second;
        return it->second.first;
    }
    auto t0 = std::chrono::steady_clock::now();
    Model m;
    Res r;
    g_ss.queries++;
    if (fp) {
        g_ss.fp_queries++;
        std::unordered_map<uint32_t, bool> fseen;
        bool arith = false;
        for (E e : conj) arith |= hasFpArith(e, fseen);
        r = arith ? runReal(conj, 5000, &m) : Res::UNKNOWN;
        if (r != Res::UNKNOWN) g_ss.real_queries++;
        if (r == Res::UNSAT && getenv("SYMX_XCHECK")) { // development: confirm by bit-blasting
            Model mx;
            z3::solver sx = (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "fpa2bv") & z3::tactic(*C, "simplify") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "bit-blast") & z3::tactic(*C, "simplify") & z3::tactic(*C, "sat")).mk_solver();
            Res rx = runSolver(sx, conj, 3000, &mx);
            fprintf(stderr, "XCHECK %s\n", rx == Res::SAT ? "MISMATCH" : rx == Res::UNSAT ? "ok" : "?");
        }
        if (r == Res::UNKNOWN) {
        m = Model();
        z3::solver s = (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "fpa2bv") & z3::tactic(*C, "simplify") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "bit-blast") & z3::tactic(*C, "simplify") & z3::tactic(*C, "sat")).mk_solver();
        r = runSolver(s, conj, g_query_timeout_ms, &m);
        }
        if (r == Res::UNKNOWN && !arith) {
            z3::solver s2 = z3::tactic(*C, "qffp").mk_solver();
            m = Model();
            r = runSolver(s2, conj, g_query_timeout_ms, &m);
        }
    } else {
        std::unordered_map<uint32_t, bool> seen;
        bool division = false;
        r = Res::UNKNOWN;
        for (E e : conj) division |= hasDivision(e, seen);
        seen.clear();
        unsigned sums = 0;
        for (E e : conj) sums += wideSums(e, seen);
        bool sumsFirst = !division && sums >= 2;
        if (sumsFirst) { // falls through to the bit-vector solver
            r = runInt(conj, 3000, &m);
            if (r != Res::UNKNOWN) g_ss.int_queries++;
        }
        if (division) { r = runInt(conj, g_query_timeout_ms, &m); if (r != Res::UNKNOWN) g_ss.int_queries++; }
        if (r == Res::UNKNOWN) { m = Model(); r = runSolver(*S_bv, conj, std::min(2000u, g_query_timeout_ms), &m); }
        if (r == Res::UNKNOWN && !division) { m = Model(); r = runInt(conj, g_query_timeout_ms / 4, &m); if (r != Res::UNKNOWN) g_ss.int_queries++; }
        if (r == Res::UNKNOWN) {
            z3::solver s = z3::tactic(*C, "qfbv").mk_solver();
            m = Model();
            r = runSolver(s, conj, g_query_timeout_ms, &m);
        }
    }
    if (r == Res::SAT) {
        // the solver's model must satisfy the query under our own evaluator (guards the encoding)
        for (E e : conj)
            if (!evalExpr(e, m)) {
                fprintf(stderr, "MODEL-MISMATCH %s\n", exprStr(e, 12).c_str());
                r = Res::UNKNOWN;
                break;
            }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if (dt > g_ss.max_time) g_ss.max_time = dt;
    if (!g_dump_dir.empty() && dt > 3.0) {
        static int n = 0;
        z3::solver s(*C);
        for (E e : conj) s.add(toBool(e));
        std::ofstream(g_dump_dir + "/q" + std::to_string(n++) + "_" + std::to_string((int)dt) + "s.smt2") << s.to_smt2();
    }
    if (r == Res::UNKNOWN && getenv("SYMX_UNDECIDED")) {
        fprintf(stderr, "UNDECIDED\n");
        for (E e : conj) fprintf(stderr, "   %s\n", exprStr(e, 14).c_str());
    }
    if (r == Res::SAT) g_ss.sat++;
    else if (r == Res::UNSAT) g_ss.unsat++;
    else g_ss.unknown++;
    if (r == Res::SAT && out) for (auto& kv : m.v) out->v[kv.first] = kv.second;
    g_qc.emplace(std::move(key), std::make_pair(r, r == Res::SAT ? m : Model()));
    return r;
}
