//@ bounds every pair of magnitudes of length, mass, energy, frequency, time (us to year, without month), current, volume, capacitance, resistance, pressure, power, potential, force, charge, conductance (thorough: all pairs; quick: every magnitude against its neighbours, its base and the extremes); every unit without magnitudes; values within 1/8..1000 of either sign and 0 (compared and added: one within 1..16, the other up to twice that), factors and divisors within 0.25..40; ratios of length to time and of potential to current with numerators within +-1000 and five denominators of either sign
//@ assume none
//@ outside deviations below 10^-5 of the magnitude; values beyond the stated range; whole number units (U01); the length of a month; whether == holds for values that differ by less than 10^-5
//@ harness h_convert parts=8
//@ harness h_compare parts=8
//@ harness h_equal parts=2
//@ harness h_arithmetic parts=8
//@ harness h_scalar parts=2
//@ harness h_temperature
//@ harness h_compound parts=8
//@ harness h_compound_scalar parts=2
//@ harness h_simplify parts=4
#include "ref.h"
#include "spine/core/exception.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"
#include <algorithm>
#include <cmath>

static int thrown;
struct Handler : spn::core::ExceptionHandler { void handle_exception(const spn::core::Exception&) override { thrown++; } };
static void catching() { thrown = 0; spn::core::set_machine_exception_handler(std::make_unique<Handler>()); }
// |a - b| <= tol * size
static bool near(double a, double b, double size, double tol = 1e-5) { if (size < 0) size = -size; double d = a - b; return d <= tol * size && d >= -tol * size; }

template<typename... U> struct Family { const double* m; int n = sizeof...(U); };
template<int K, typename F, typename U, typename... R> static void nth(int i, F&& f) {
    if constexpr (sizeof...(R) == 0) f(U(0.0f), K);
    else if (i == K) f(U(0.0f), K);
    else nth<K + 1, F, R...>(i, std::forward<F>(f));
}
static bool relevant(int i, int j, int n, const double* m) {
    if (THOROUGH) return true;
    return i == j || i - j == 1 || j - i == 1 || m[j] == 1 || (i == 0 && j == n - 1) || (j == 0 && i == n - 1);
}
template<typename... U, typename F> static void pairs(const double* m, F&& f) {
    int n = sizeof...(U), i = (int)sym::pick("unit a", n), j = (int)sym::pick("unit b", n);
    if (!relevant(i, j, n, m)) return;
    auto first = [&](auto a, int) { auto second = [&](auto b, int) { f(a, b, m[i], m[j]); }; nth<0, decltype(second)&, U...>(j, second); };
    nth<0, decltype(first)&, U...>(i, first);
}
static const double LEN[] = {1e-9, 1e-6, 1e-3, 1e-2, 1e-1, 1, 1e3}, MASS[] = {1e-6, 1e-3, 1, 1e3}, ENERGY[] = {1e-12, 1e-9, 1e-6, 1e-3, 1, 1e3, 1e6, 1e9, 1e12}, FREQ[] = {1, 1e3, 1e6, 1e9},
    TIME[] = {1e-6, 1e-3, 1, 60, 3600, 86400, 604800, 31536000}, CURRENT[] = {1e-6, 1e-3, 1}, VOLUME[] = {1e-3, 1, 1e3}, CAP[] = {1e-12, 1e-9, 1e-6, 1e-3, 1}, OHM[] = {1e-3, 1, 1e3, 1e6},
    PRES[] = {1, 1e3, 1e6}, POW[] = {1e-3, 1, 1e3, 1e6, 1e9}, VOLT[] = {1e-6, 1e-3, 1}, FORCE[] = {1, 1e3}, CHARGE[] = {1e-9, 1e-6, 1e-3, 1}, COND[] = {1e-6, 1e-3, 1}, ONE[] = {1};
template<typename F> static void any(F&& f) {
    switch (sym::pick("family", 26)) {
    case 0: pairs<meter_n, meter_u, meter_m, meter_c, meter_d, meter, meter_k>(LEN, f); break;
    case 1: pairs<gram_u, gram_m, gram, gram_k>(MASS, f); break;
    case 2: pairs<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>(ENERGY, f); break;
    case 3: pairs<hertz, hertz_k, hertz_M, hertz_G>(FREQ, f); break;
    case 4: pairs<time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_Y>(TIME, f); break;
    case 5: pairs<amp_u, amp_m, amp>(CURRENT, f); break;
    case 6: pairs<litre_ml, litre, cubic_metre>(VOLUME, f); break;
    case 7: pairs<farad_p, farad_n, farad_u, farad_m, farad>(CAP, f); break;
    case 8: pairs<ohm_m, ohm, ohm_k, ohm_M>(OHM, f); break;
    case 9: pairs<pascal, pascal_k, pascal_M>(PRES, f); break;
    case 10: pairs<watt_m, watt, watt_k, watt_M, watt_G>(POW, f); break;
    case 11: pairs<volt_u, volt_m, volt>(VOLT, f); break;
    case 12: pairs<newton, newton_k>(FORCE, f); break;
    case 13: pairs<coulomb_n, coulomb_u, coulomb_m, coulomb>(CHARGE, f); break;
    case 14: pairs<siemens_u, siemens_m, siemens>(COND, f); break;
    case 15: pairs<gray>(ONE, f); break;
    case 16: pairs<mole>(ONE, f); break;
    case 17: pairs<katal>(ONE, f); break;
    case 18: pairs<sievert>(ONE, f); break;
    case 19: pairs<lux>(ONE, f); break;
    case 20: pairs<henry>(ONE, f); break;
    case 21: pairs<lumen>(ONE, f); break;
    case 22: pairs<weber>(ONE, f); break;
    case 23: pairs<tesla>(ONE, f); break;
    case 24: pairs<becquerel>(ONE, f); break;
    default: if (sym::fork("kelvin")) pairs<kelvin>(ONE, f); else pairs<celsius>(ONE, f); break;
    }
}
static float value(const char* n, float lo = 0.125f, float hi = 1000) {
    float f = sym::f32(n);
    if (sym::fork("negative")) sym_assume(f <= -lo && f >= -hi);
    else sym_assume(f >= lo && f <= hi);
    return f;
}
HARNESS(h_convert) {
    any([&](auto za, auto zb, double ma, double mb) {
        using A = decltype(za);
        using B = decltype(zb);
        bool zero = sym::fork("zero");
        float v = zero ? 0.0f : value("v");
        A a(v);
        CHECK(a.raw() == v, "a unit holds the value it was made of");
        CHECK(a.is_negative() == (v < 0), "the sign is that of the value");
        B b(a);
        double x = (double)v * (ma / mb);
        CHECK(near(b.raw(), x, x), "converting keeps the amount");
        B c;
        CHECK(c.raw() == 0, "a unit is zero at first");
        c = a;
        CHECK(c.raw() == b.raw(), "assigning converts like constructing");
        B d(v);
        d = A(v);
        CHECK(d.raw() == b.raw(), "assigning converts like constructing");
        A back(b);
        CHECK(near(back.raw(), v, v), "converting there and back keeps the amount");
    });
    sym_reach("end");
}
// two values of comparable amount, and the second in units of the first
template<typename F> static void two(F&& f) {
    any([&](auto za, auto zb, double ma, double mb) {
        using A = decltype(za);
        using B = decltype(zb);
        double r = mb / ma;
        float w = value("w", 1, 16), v = sym::f32("v"), lim = (float)(32 * r);
        double y = (double)w * r;
        sym_assume(v >= -lim && v <= lim);
        f(A(v), B(w), (double)v, y);
    });
}
HARNESS(h_compare) {
    two([&](auto a, auto b, double x, double y) {
        bool negative = y < 0;
        double lo = y * (negative ? 1 + 1e-5 : 1 - 1e-5), hi = y * (negative ? 1 - 1e-5 : 1 + 1e-5);
        sym_assume(x < lo || x > hi);
        bool less = x < y;
        CHECK((a < b) == less, "< orders by amount");
        CHECK((a > b) == !less, "> orders by amount");
        CHECK((a <= b) == less, "<= orders by amount");
        CHECK((a >= b) == !less, ">= orders by amount");
        CHECK(!(a == b), "== tells different amounts");
        CHECK(a != b, "!= tells different amounts");
        sym_reach("different");
    });
}
HARNESS(h_equal) {
    any([&](auto za, auto, double, double) {
        using A = decltype(za);
        float v = value("same");
        A a(v), b(v);
        CHECK(a == b && a <= b && a >= b && !(a != b) && !(a < b) && !(a > b), "equal amounts compare as equal");
    });
    sym_reach("end");
}
HARNESS(h_arithmetic) {
    two([&](auto a, auto b, double x, double y) {
        const auto A0 = a;
        const auto B0 = b;
        double size = (x < 0 ? -x : x) + (y < 0 ? -y : y);
        auto p = A0 + B0, m = A0 - B0;
        CHECK(near(p.raw(), x + y, size), "the sum adds the other amount");
        CHECK(near(m.raw(), x - y, size), "the difference takes off the other amount");
        auto q = a, n = a;
        auto& rq = (q += B0);
        auto& rn = (n -= B0);
        CHECK(&rq == &q && q.raw() == p.raw(), "+= agrees with +");
        CHECK(&rn == &n && n.raw() == m.raw(), "-= agrees with -");
        CHECK((-A0).raw() == -A0.raw() && A0.raw() == a.raw() && B0.raw() == b.raw(), "negation negates, operands stay");
    });
    sym_reach("end");
}
HARNESS(h_scalar) {
    catching();
    static const float ks[] = {0.25f, 3, 40, -1.5f, -7};
    float v = value("v");
    const meter a(v);
    if (sym::fork("zero divisor")) {
        (void)(a / 0.0f);
        CHECK(thrown == 1, "dividing by zero throws");
        meter b(v);
        b /= 0;
        CHECK(thrown == 2, "dividing by zero throws");
        (void)(a / meter_k(0.0f));
        CHECK(thrown == 3, "dividing by zero throws");
    } else {
        float k = ks[sym::pick("k", 5)];
        double x = (double)v * k, y = (double)v / k;
        CHECK(near((a * k).raw(), x, x), "multiplying scales the amount");
        CHECK(near((a / k).raw(), y, y), "dividing scales the amount");
        meter b(v), c(v);
        CHECK(&(b *= k) == &b && near(b.raw(), x, x), "*= agrees with *");
        CHECK(&(c /= k) == &c && near(c.raw(), y, y), "/= agrees with /");
        int i = (int)sym::pick("i", 5) * 2 + 1;
        CHECK(near((a * i).raw(), (double)v * i, (double)v * i) && near((a / i).raw(), (double)v / i, (double)v / i), "whole numbers scale likewise");
        CHECK(near((a / meter_c(k * 100)).raw(), y, y), "a ratio of units is that of their amounts");
        CHECK(near((a * meter_c(k * 100)).raw(), x, x), "a product of units is that of their amounts");
        CHECK(thrown == 0, "nothing else throws");
    }
    sym_reach("end");
}
HARNESS(h_temperature) {
    float v = sym::f32("v");
    sym_assume(v >= -1000 && v <= 3000);
    kelvin k = to_kelvin(celsius(v));
    CHECK(near(k.raw(), (double)v + 273.15, 3000, 1e-6), "kelvin are 273.15 above degrees Celsius");
    CHECK(near(to_celsius(k).raw(), v, 3000, 1e-6), "converting there and back keeps the temperature");
    CHECK(near(to_celsius(kelvin(v)).raw(), (double)v - 273.15, 3000, 1e-6), "degrees Celsius are 273.15 below kelvin");
    CHECK(to_kelvin(kelvin(v)).raw() == v && to_celsius(celsius(v)).raw() == v, "converting to the same unit changes nothing");
    sym_reach("end");
}
using namespace spn::structure::units;
static const float DEN[5] = {2, 0.5f, 7, -3, -0.25f};
static float num(const char* n) { float f = sym::f32(n); sym_assume(f >= -1000 && f <= 1000); return f; }
// a ratio r/d in units of A, and s/e in units of B, which are `unit` of A
template<typename A, typename B> static void compare(double unit) {
    using AN = typename A::NumeratorType;
    using AD = typename A::DenominatorType;
    using BN = typename B::NumeratorType;
    using BD = typename B::DenominatorType;
    float r = num("r"), s = num("s"), d = DEN[sym::pick("d", 5)], e = DEN[sym::pick("e", 5)];
    A a{AN(r), AD(d)};
    B b{BN(s), BD(e)};
    double x = (double)r / d, y = (double)s / e * unit, size = 4000 + 4000 * unit;
    CHECK(near(a.raw(), x, 4000), "a compound is the ratio of its parts");
    A c(b), f;
    f = b;
    CHECK(near(c.raw(), y, size), "converting keeps the ratio");
    CHECK(c.raw() == f.raw(), "assigning converts like constructing");
    switch (sym::pick("op", 4)) {
    case 0: CHECK(near((a + b).raw(), x + y, size, 1e-4), "the sum adds the other ratio"); break;
    case 1: CHECK(near((a - b).raw(), x - y, size, 1e-4), "the difference takes off the other ratio"); break;
    case 2: CHECK(near((-a).raw(), -x, size), "negation negates"); break;
    default:
        sym_assume(x < y - 1e-5 * size || x > y + 1e-5 * size);
        bool less = x < y;
        CHECK((a < b) == less && (a <= b) == less && (a > b) == !less && (a >= b) == !less, "compounds are ordered by ratio");
        CHECK(a != b && !(a == b), "== tells different ratios");
    }
    CHECK(a.numerator().raw() == r && a.denominator().raw() == d && b.numerator().raw() == s && b.denominator().raw() == e, "operands stay");
}
HARNESS(h_compound) {
    typedef CompoundUnit<meter, time_s> MS;
    typedef CompoundUnit<meter_k, time_h> KH;
    switch (sym::pick("kinds", 4)) {
    case 0: compare<MS, MS>(1); break;
    case 1: compare<MS, KH>(1 / 3.6); break;
    case 2: compare<KH, MS>(3.6); break;
    default: compare<CompoundUnit<volt_m, amp>, CompoundUnit<volt, amp_m>>(1e6); break;
    }
    sym_reach("end");
}
HARNESS(h_compound_scalar) {
    catching();
    typedef CompoundUnit<meter, time_s> MS;
    float r = num("r"), d = DEN[sym::pick("d", 5)];
    MS a{meter(r), time_s(d)};
    if (sym::fork("zero")) {
        (void)MS{meter(r), time_s(0.0f)}.raw();
        CHECK(thrown == 1, "a ratio to zero throws");
        (void)(a / 0);
        CHECK(thrown > 1, "dividing by zero throws");
        thrown = 0;
        a /= 0.0f;
        CHECK(thrown > 0, "dividing by zero throws");
    } else {
        static const float ks[] = {0.25f, 3, -7};
        float k = ks[sym::pick("k", 3)];
        double x = (double)r / d;
        CHECK(near((a * k).raw(), x * k, 40000), "multiplying scales the ratio");
        CHECK(near((a / k).raw(), x / k, 40000), "dividing scales the ratio");
        MS b = a, c = a;
        CHECK(&(b *= k) == &b && near(b.raw(), x * k, 40000), "*= agrees with *");
        CHECK(&(c /= k) == &c && near(c.raw(), x / k, 40000), "/= agrees with /");
        CHECK(a == a && a == MS(meter(r), time_s(d)) && !(a != a) && a <= a && a >= a && !(a < a), "equal ratios compare as equal");
        CHECK(thrown == 0, "nothing else throws");
    }
    sym_reach("end");
}
HARNESS(h_simplify) {
    typedef CompoundUnit<meter, time_s> MS;
    static const float N[] = {0, 1, 6, 12, -12, 0.5f, -2.25f, 1000, 1e-7f, 0.003f}, D[] = {1, 4, -4, 0.75f, 360, 1e-7f, 0.021f};
    float r = N[sym::pick("n", 10)], d = D[sym::pick("d", 7)];
    MS a{meter(r), time_s(d)};
    float before = a.raw();
    bool coarse = sym::fork("precision");
    double scale = coarse ? 1e3 : 1e6;
    if (coarse) a.simplify(1e3f); else a.simplify();
    CHECK(near(a.raw(), before, before, 1e-5), "simplifying keeps the ratio");
    float n = a.numerator().raw(), m = a.denominator().raw();
    if (r == 12 && d == 4) CHECK(near(n * scale, 3, 3) && near(m * scale, 1, 1), "the parts are reduced to the fewest units of the precision");
    if (r == 6 && d == 360) CHECK(near(n * scale, 1, 1) && near(m * scale, 60, 60), "the parts are reduced to the fewest units of the precision");
    if (r == -2.25f && d == 0.75f) CHECK(near(n * scale, -3, 3) && near(m * scale, 1, 1), "the parts are reduced to the fewest units of the precision");
    CHECK((n < 0) == (r < 0) && (m < 0) == (d < 0), "simplifying keeps the signs");
    sym_reach("end");
}
