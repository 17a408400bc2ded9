//@ bounds every pair out of the six kernel time magnitudes (us, ms, s, min, h, d); values up to +-10^12 us, 10^10 ms, 10^9 s, 10^8 min, 10^6 h, 10^5 d, and compared, added and subtracted up to +-10^18 us or about as long; comparisons of values a fraction of a unit apart; whole number factors up to +-1000, twelve divisors from -1000 to 1000, nine factors that are not whole (in either precision, values up to +-16383), products and quotients with eight fixed units
//@ assume values stay clear of the 64 bit range
//@ outside kernel time values whose microseconds do not fit 64 bits
//@ harness h_convert parts=6
//@ harness h_compare parts=6
//@ harness h_arithmetic parts=6
//@ harness h_far parts=6
//@ harness h_close
//@ harness h_scalar parts=3
//@ harness h_real parts=2
//@ harness h_fraction parts=3
//@ harness h_product parts=3
#include "ref.h"
#include "spine/structure/units/si.hpp"
#include <cmath>

static const int64_t US[6] = {1, 1000, 1000000, 60000000LL, 3600000000LL, 86400000000LL};
static const int64_t LIM[6] = {1000000000000LL, 10000000000LL, 1000000000LL, 100000000LL, 1000000LL, 100000LL};

template<typename F> static void with_unit(int i, F&& f) {
    switch (i) {
    case 0: f(k_time_us(0)); break;
    case 1: f(k_time_ms(0)); break;
    case 2: f(k_time_s(0)); break;
    case 3: f(k_time_m(0)); break;
    case 4: f(k_time_h(0)); break;
    default: f(k_time_d(0)); break;
    }
}
template<typename F> static void with_units(F&& f) {
    int i = sym::pick("unit a", 6), j = sym::pick("unit b", 6);
    with_unit(i, [&](auto a) { with_unit(j, [&](auto b) { f(a, b, i, j); }); });
}
// r is the whole number of `to` nearest to v `from`, halves away from zero
static bool nearest(int64_t r, int64_t v, int from, int to) {
    if (US[from] >= US[to]) return r == v * (US[from] / US[to]);
    int64_t d = US[to] / US[from], e = v - r * d; // error in units of from
    if (v >= 0) return 2 * e < d && 2 * e >= -d && r >= 0;
    return 2 * e <= d && 2 * e > -d && r <= 0;
}

HARNESS(h_convert) {
    with_units([&](auto za, auto zb, int i, int j) {
        using A = decltype(za);
        using B = decltype(zb);
        int64_t v = sym::range("v", -LIM[i], LIM[i]);
        A a(v);
        CHECK(a.raw() == v, "a unit holds the value it was made of");
        CHECK(a.is_negative() == (v < 0), "the sign is that of the value");
        B b(a);
        CHECK(nearest(b.raw(), v, i, j), "converting rounds to the nearest whole number of the target magnitude");
        B c;
        c = a;
        CHECK(c.raw() == b.raw(), "assigning converts like constructing");
        if (US[i] >= US[j]) {
            A back(b);
            CHECK(back.raw() == v, "a conversion to a finer magnitude is lossless");
            sym_reach("lossless");
        }
    });
}
static void compare(const int64_t* LIM) {
    with_units([&](auto za, auto zb, int i, int j) {
        using A = decltype(za);
        using B = decltype(zb);
        int64_t v = sym::range("v", -LIM[i], LIM[i]), w = sym::range("w", -LIM[j], LIM[j]);
        A a(v);
        B b(w);
        int64_t m = US[i] < US[j] ? US[i] : US[j];
        int64_t x = v * (US[i] / m), y = w * (US[j] / m);
        CHECK((a < b) == (x < y), "< orders by duration");
        CHECK((a > b) == (x > y), "> orders by duration");
        CHECK((a <= b) == (x <= y), "<= orders by duration");
        CHECK((a >= b) == (x >= y), ">= orders by duration");
        CHECK((a == b) == (x == y), "== tells equal durations");
        CHECK((a != b) == (x != y), "!= tells different durations");
        if (a == b) sym_reach("equal");
    });
}
HARNESS(h_compare) { compare(LIM); }
static void arithmetic(const int64_t* LIM) {
    with_units([&](auto za, auto zb, int i, int j) {
        using A = decltype(za);
        using B = decltype(zb);
        int64_t v = sym::range("v", -LIM[i], LIM[i]), w = sym::range("w", -LIM[j], LIM[j]);
        const A a(v);
        const B b(w);
        const A p = a + b, m = a - b;
        CHECK(nearest(p.raw() - v, w, j, i), "the sum adds the other duration, rounded to the magnitude of the sum");
        CHECK(nearest(v - m.raw(), w, j, i), "the difference takes off the other duration, rounded likewise");
        A q(v), n(v);
        A& rq = (q += b);
        A& rn = (n -= b);
        CHECK(&rq == &q && q.raw() == p.raw(), "+= agrees with +");
        CHECK(&rn == &n && n.raw() == m.raw(), "-= agrees with -");
        CHECK((-a).raw() == -v && a.raw() == v && b.raw() == w, "negation negates, operands stay");
    });
}
HARNESS(h_arithmetic) { arithmetic(LIM); }
// as far as 64 bits of microseconds reach, beyond what a real number holds exactly
static const int64_t FAR[6] = {1000000000000000000LL, 1000000000000000LL, 1000000000000LL, 16000000000LL, 270000000LL, 11000000LL};
HARNESS(h_far) {
    if (sym::fork("arithmetic")) arithmetic(FAR);
    else compare(FAR);
    sym_reach("far");
}
HARNESS(h_close) { // as long, and different by a few only
    with_units([&](auto za, auto zb, int i, int j) {
        if (US[i] < US[j]) return;
        using A = decltype(za);
        using B = decltype(zb);
        int64_t v = FAR[i] - sym::range("short", 0, 3), e = sym::range("difference", -3, 3), w = v * (US[i] / US[j]) + e;
        A a(sym::fork("negative") ? -v : v);
        B b(a.raw() < 0 ? -w : w);
        if (a.raw() < 0) e = -e;
        CHECK((a < b) == (e > 0) && (b > a) == (e > 0), "< orders by duration");
        CHECK((a > b) == (e < 0) && (b < a) == (e < 0), "> orders by duration");
        CHECK((a <= b) == (e >= 0) && (a >= b) == (e <= 0) && (b <= a) == (e <= 0) && (b >= a) == (e >= 0), "<= and >= order by duration");
        CHECK((a == b) == (e == 0) && (b != a) == (e != 0), "== tells equal durations");
        B d = b - a;
        CHECK(d.raw() == e && (a - b).raw() == (US[i] == US[j] ? -e : US[i] <= 6 * US[j] ? (a - b).raw() : 0), "the difference takes off the other duration, rounded likewise");
        sym_reach("close");
    });
}
HARNESS(h_scalar) {
    int i = sym::pick("unit a", 6);
    with_unit(i, [&](auto za) {
        using A = decltype(za);
        int64_t v = sym::range("v", -1000000, 1000000);
        const A a(v);
        int s = (int)sym::range("s", -1000, 1000);
        CHECK((a * s).raw() == v * s, "multiplying scales the value");
        A b(v);
        b *= s;
        CHECK(b.raw() == v * s, "*= agrees with *");
        static const int DIV[] = {1, 2, 3, 7, 10, 60, 999, 1000, -1, -2, -9, -1000};
        s = DIV[sym::pick("divisor", 12)];
        int64_t q = (a / s).raw(), r = v - q * s, as = s < 0 ? -(int64_t)s : s;
        CHECK(r < as && r > -as && (r == 0 || (r < 0) == (v < 0)), "dividing is whole number division");
        A c(v);
        c /= s;
        CHECK(c.raw() == q, "/= agrees with /");
    });
}
HARNESS(h_real) {
    // real time and kernel time of the same magnitude; values that a float holds exactly
    int64_t v = sym::range("v", -(1 << 20), 1 << 20);
    CHECK(to_real_time(k_time_ms(v)).raw() == (float)v, "kernel time becomes the same real time");
    float h = (float)v / 8; // exact
    int64_t fl = v >> 3, ce = (v + 7) >> 3;
    CHECK(to_kernel_time(time_ms(h)).raw() == ce, "real time is rounded up by default");
    CHECK(to_kernel_time(time_ms(h), std::floor).raw() == fl, "or by the rounding asked for");
    sym_reach("real");
}
HARNESS(h_fraction) {
    int i = sym::pick("unit a", 6);
    with_unit(i, [&](auto za) {
        using A = decltype(za);
        int64_t v = sym::range("v", -16383, 16383);
        static const int NUM[] = {3, 1, -5, 1, 7, -1, 129, 0, 9}, DEN[] = {2, 2, 2, 4, 4, 8, 8, 2, 1};
        int k = (int)sym::pick("factor", 9);
        A a(v), b(v), c(v), d(v);
        if (sym::fork("binary")) { // the operators that leave the unit as it is
            if (sym::fork("double")) { a = d * ((double)NUM[k] / DEN[k]); if (k == 1 || k == 3) { b = d / (double)DEN[k]; c = d / ((double)1 / DEN[k]); } }
            else { a = d * ((float)NUM[k] / DEN[k]); if (k == 1 || k == 3) { b = d / (float)DEN[k]; c = d / (1.0f / DEN[k]); } }
            CHECK(d.raw() == v, "scaling leaves the value scaled as it is");
        } else if (sym::fork("double")) { a *= (double)NUM[k] / DEN[k]; if (k == 1 || k == 3) { b /= (double)DEN[k]; c /= (double)1 / DEN[k]; } }
        else { a *= (float)NUM[k] / DEN[k]; if (k == 1 || k == 3) { b /= (float)DEN[k]; c /= 1.0f / DEN[k]; } }
        CHECK(a.raw() == v * NUM[k] / DEN[k], "scaling by a fraction keeps the whole part of the scaled value");
        if (k == 1 || k == 3) {
            CHECK(b.raw() == v / DEN[k], "dividing by a real number keeps the whole part");
            CHECK(c.raw() == v * DEN[k], "dividing by a fraction scales up");
        }
        sym_reach("scaled");
    });
}
HARNESS(h_product) {
    with_units([&](auto za, auto zb, int i, int j) {
        using A = decltype(za);
        using B = decltype(zb);
        static const int64_t W[] = {1, -1, 3, 7, 60, -90, 1000, 90000};
        int64_t v = sym::range("v", -100000, 100000), w = W[sym::pick("w", 8)];
        const A a(v);
        const B b(w);
        int64_t x = US[i] >= US[j] ? 0 : w * (US[j] / US[i]); // b in units of a
        if (US[i] >= US[j]) { int64_t d = US[i] / US[j], q = (w < 0 ? -w : w) * 2 + d; x = q / (2 * d) * (w < 0 ? -1 : 1); }
        CHECK((a * b).raw() == v * x, "a product takes the other duration in its own magnitude");
        if (x != 0) {
            int64_t q = (a / b).raw(), r = v - q * x, m = x < 0 ? -x : x;
            CHECK(r < m && r > -m && (r == 0 || (r < 0) == (v < 0)), "a quotient takes the other duration in its own magnitude");
        }
        sym_reach("product");
    });
}
