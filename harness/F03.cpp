//@ bounds mappings (0..1 to 0..100), (0..1 to 0..1000), (-50..150 to -1..1), (4..20 to 100..0), (0.1..0.7 to 3..3.3) and (0..1023 to 0..1), single and double precision; inverters over 0..1, -50..150 and 4..20; pairs of samples, each any number within +-10^6, any number at all for passing through
//@ assume an inverter is given samples within its range (its asserted precondition); the lower input limit is below the upper one
//@ outside deviations below 10^-4 of the output range; samples that are not numbers
//@ harness h_mapped parts=4 qtimeout=3000
//@ harness h_invert qtimeout=3000
//@ harness h_pass
#include "ref.h"
#include <algorithm>
#include <memory>
#include "spine/core/exception.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;
static int thrown;
struct Handler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { thrown++; }
};
template<typename F> static F num(const char* n, F lo = -1000000, F hi = 1000000);
template<> float num<float>(const char* n, float lo, float hi) { float f = sym::f32(n); sym_assume(f >= lo && f <= hi); return f; }
template<> double num<double>(const char* n, double lo, double hi) { double f = sym::f64(n); sym_assume(f >= lo && f <= hi); return f; }
struct Map { double il, ih, ol, oh; };
static const Map maps[6] = {{0, 1, 0, 100}, {0, 1, 0, 1000}, {-50, 150, -1, 1}, {4, 20, 100, 0}, {0.1, 0.7, 3, 3.3}, {0, 1023, 0, 1}};
template<typename F> static void mapped() {
    auto old = spn::core::set_machine_exception_handler(std::make_unique<Handler>());
    thrown = 0;
    unsigned which = (unsigned)sym::pick("map", 6);
    const Map& m = maps[which];
    bool throwing = false;
    std::unique_ptr<MappedRange<F>> own;
    if (which == 0 && sym::fork("factory")) own = MappedRange<F>::Percentage();
    else if (which == 1 && sym::fork("factory")) own = MappedRange<F>::Permillage();
    else {
        throwing = sym::fork("throwing");
        own = std::make_unique<MappedRange<F>>(typename MappedRange<F>::Config{.input_lower_limit = (F)m.il, .input_upper_limit = (F)m.ih,
            .output_lower_limit = (F)m.ol, .output_upper_limit = (F)m.oh, .throw_for_value_out_of_range = throwing});
    }
    MappedRange<F>& f = *own;
    double tol = (m.oh > m.ol ? m.oh - m.ol : m.ol - m.oh) * 1e-4;
    F a = num<F>("a"), b = num<F>("b");
    F fa = f.value(a);
    int n = a < (F)m.il || a > (F)m.ih;
    CHECK(thrown == (throwing ? n : 0), "a sample out of range throws, if asked for, and one within does not");
    CHECK(f.value() == fa, "the value returned is the value kept");
    f.new_sample(b);
    F fb = f.value();
    n += b < (F)m.il || b > (F)m.ih;
    CHECK(thrown == (throwing ? n : 0), "a sample out of range throws, if asked for, and one within does not");
    double lo = m.ol < m.oh ? m.ol : m.oh, hi = m.ol < m.oh ? m.oh : m.ol;
    CHECK((double)fa >= lo - tol && (double)fa <= hi + tol, "the output stays in its range");
    if (a <= (F)m.il) CHECK(fa == (F)m.ol, "the lower input limit and below map to the lower output limit");
    else if (a >= (F)m.ih) CHECK((double)fa >= m.oh - tol && (double)fa <= m.oh + tol, "the upper input limit and above map to the upper output limit");
    else {
        double d = fa - (m.ol + (a - m.il) / (m.ih - m.il) * (m.oh - m.ol));
        CHECK(d <= tol && d >= -tol, "in between the mapping is linear");
    }
    if (a <= b) CHECK(m.oh > m.ol ? (double)fa <= (double)fb + tol : (double)fa >= (double)fb - tol, "the mapping keeps the order");
    F v = num<F>("reset");
    f.reset_to(v);
    CHECK(f.value() == v, "a reset shows the value given");
    CHECK(f(a) == fa, "the same sample maps to the same value again");
    spn::core::set_machine_exception_handler(std::move(old));
    sym_reach("end");
}
HARNESS(h_mapped) {
    if (sym::fork("double")) mapped<double>();
    else mapped<float>();
}
template<typename F> static void invert() {
    static const double lims[3][2] = {{0, 1}, {-50, 150}, {4, 20}};
    unsigned which = (unsigned)sym::pick("range", 3);
    F lo = (F)lims[which][0], hi = (F)lims[which][1];
    std::unique_ptr<Invert<F>> own;
    if (sym::fork("factory")) own = which == 0 ? Invert<F>::NormalizedInverter() : Invert<F>::NormalizedInverter((float)lo, (float)hi);
    else own = std::make_unique<Invert<F>>(typename Invert<F>::Config{.input_lower_limit = lo, .input_upper_limit = hi});
    Invert<F>& f = *own;
    double tol = (hi - lo) * 1e-4;
    F a = num<F>("a", lo, hi), b = num<F>("b", lo, hi);
    F fa = f.value(a);
    CHECK(f.value() == fa, "the value returned is the value kept");
    f.new_sample(b);
    F fb = f.value();
    double d = (double)fa - ((double)hi - ((double)a - (double)lo));
    CHECK(d <= tol && d >= -tol, "the inverse is as far from the upper limit as the sample is from the lower one");
    CHECK((double)fa >= lo - tol && (double)fa <= hi + tol, "the inverse stays in the range");
    if (a <= b) CHECK((double)fa >= (double)fb - tol, "inverting reverses the order");
    if (fa >= lo && fa <= hi) {
        double back = (double)f(fa) - (double)a;
        CHECK(back <= tol && back >= -tol, "inverting twice gives the sample back");
    }
    F v = num<F>("reset");
    f.reset_to(v);
    CHECK(f.value() == v, "a reset shows the value given");
    sym_reach("end");
}
HARNESS(h_invert) {
    if (sym::fork("double")) invert<double>();
    else invert<float>();
}
HARNESS(h_pass) {
    Passthrough<float> f(Passthrough<float>::Config{});
    float a = sym::f32("a");
    sym_assume(a == a);
    CHECK(sym::bits(f.value(a)) == sym::bits(a) && sym::bits(f.value()) == sym::bits(a), "passing through changes nothing");
    float b = sym::f32("b");
    f.new_sample(b);
    CHECK(b != b || sym::bits(f.value()) == sym::bits(b), "passing through changes nothing");
    f.reset_to(a);
    CHECK(f.value() == a, "a reset shows the value given");
    CHECK(f(a) == a, "passing through changes nothing");
    double c = sym::f64("c");
    sym_assume(c == c);
    Passthrough<double> g(Passthrough<double>::Config{});
    CHECK(sym::bits(g.value(c)) == sym::bits(c) && g.value() == c, "passing through changes nothing");
    sym_reach("end");
}
