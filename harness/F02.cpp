//@ bounds relative and absolute filters with a distance of 20 around 0, 10.2 around 0 (the broad filter), 200 around 5, 1.5811388 around -20 (beyond 10^-0.8, 10^0.01, 10^1 decades); rejection limits of 0..2 (10 for the broad filter), with and without throwing; 4 (thorough 6) samples, each any number within +-1000, with a reset at any point; limits of 254..257 rejections with the same sample; double precision bands of 10^1.01, 3*10^-3 and 5*10^7 with samples further than 10^-12 of the distance from the edge
//@ assume the first sample of an absolute filter is within its band
//@ outside samples within 0.01 of the edge of the band, other than where the edge is exactly 20 and in double precision; readings beyond +-1000; what an exception handler that does not return does
//@ harness h_band parts=8 qtimeout=2000
//@ harness h_broad
//@ harness h_edge
//@ harness h_patient
//@ harness h_precise
#include "ref.h"
#include <algorithm>
#include <memory>
#include "spine/core/exception.hpp"
#include "spine/filter/implementations/bandpass.hpp"
using spn::filter::BandPass;
static int thrown;
struct Handler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { thrown++; }
};
static float num(const char* n) { float f = sym::f32(n); sym_assume(f >= -1000 && f <= 1000); return f; }
struct Cfg { float mantissa, decades, offset; double distance; };
static const Cfg cfgs[4] = {{2, 0, 0, 20}, {2, 1, 5, 200}, {5, -1.5f, -20, 1.58113883}, {1, 0.01f, 0, 10.2329299}};
static void band(BandPass<float>& f, bool relative, double offset, double distance, int limit, bool throwing, int samples) {
    auto old = spn::core::set_machine_exception_handler(std::make_unique<Handler>());
    thrown = 0;
    int calls = 0, rejected = 0;
    int at = (int)sym::pick("reset at", 3);
    float value = 0;
    bool any = false;
    for (int i = 0; i < samples; i++) {
        if (at && i == at) {
            value = num("reset");
            f.reset_to(value);
            CHECK(f.value() == value, "a reset shows the value given");
            any = true;
        }
        float s = num("sample");
        double mid = (relative ? (any ? (double)value : (double)s) : 0) + offset, d = s - mid;
        double r = relative && !any ? offset : d; // the first one is only as far as the offset
        if (r < 0) r = -r;
        sym_assume(r <= distance - 0.01 || r >= distance + 0.01);
        if (!any && !relative) sym_assume(r <= distance);
        float out;
        if (i % 2) out = f.value(s);
        else { f.new_sample(s); out = f.value(); }
        bool inside = r <= distance;
        if (inside) {
            CHECK(out == s, "a sample within the band is taken");
            rejected = 0;
            value = s;
            sym_reach("taken");
        } else if (++rejected > limit) {
            CHECK(out == s, "a sample beyond the limit of consecutive rejections is taken");
            if (throwing) calls++;
            rejected = 0;
            value = s;
            sym_reach("forced");
        } else {
            if (!any) value = s; // nothing else to show
            CHECK(out == value, "a sample outside the band is rejected");
            sym_reach("rejected");
        }
        CHECK(thrown == calls, "an exception is thrown exactly when the limit of rejections is passed, and only if asked for");
        any = true;
    }
    spn::core::set_machine_exception_handler(std::move(old));
}
HARNESS(h_band) {
    const Cfg& c = cfgs[sym::pick("config", 4)];
    bool relative = sym::fork("relative"), throwing = sym::fork("throwing");
    int limit = (int)sym::pick("limit", 3);
    BandPass<float> f(BandPass<float>::Config{
        .mode = relative ? BandPass<float>::Mode::RELATIVE : BandPass<float>::Mode::ABSOLUTE,
        .mantissa = c.mantissa, .decades = c.decades, .offset = c.offset, .rejection_limit = limit, .throw_on_rejection_limit = throwing});
    band(f, relative, c.offset, c.distance, limit, throwing, QT(4, 6));
}
HARNESS(h_broad) {
    auto f = BandPass<float>::Broad();
    float first = num("first");
    f->new_sample(first);
    CHECK(f->value() == first, "the first sample is taken");
    float far = num("far");
    sym_assume(far > first + 11 || far < first - 11);
    auto old = spn::core::set_machine_exception_handler(std::make_unique<Handler>());
    thrown = 0;
    for (int i = 0; i < 10; i++) {
        CHECK(f->value(far) == first, "the broad filter rejects ten distant samples");
        CHECK(thrown == 0, "rejecting is not an error");
    }
    CHECK(f->value(far) == far && thrown == 1, "the broad filter throws at the eleventh");
    spn::core::set_machine_exception_handler(std::move(old));
    sym_reach("end");
}

HARNESS(h_edge) { // a band whose edges are exact: they belong to it
    BandPass<float> f(BandPass<float>::Config{.mode = BandPass<float>::Mode::ABSOLUTE, .mantissa = 2, .decades = 0, .offset = 0, .rejection_limit = 5, .throw_on_rejection_limit = false});
    f.new_sample(1);
    float s = sym::f32("sample");
    sym_assume((s >= -20) & (s <= 20));
    CHECK(f.value(s) == s, "a sample up to the edge of the band, inclusive, is taken");
    float b = num("beyond");
    sym_assume((b < -20.001f) | (b > 20.001f));
    CHECK(f.value(b) == s, "a sample beyond the edge is not");
    sym_reach("edge");
}

HARNESS(h_patient) { // limits of rejections beyond what a byte counts
    bool throwing = sym::fork("throwing");
    int limit = 254 + (int)sym::pick("limit", 4);
    BandPass<float> f(BandPass<float>::Config{.mode = BandPass<float>::Mode::RELATIVE, .mantissa = 2, .decades = 0, .offset = 0, .rejection_limit = limit, .throw_on_rejection_limit = throwing});
    auto old = spn::core::set_machine_exception_handler(std::make_unique<Handler>());
    thrown = 0;
    f.new_sample(1);
    float far = num("far");
    sym_assume((far > 22) | (far < -22));
    for (int i = 0; i < limit; i++) CHECK(f.value(far) == 1 && thrown == 0, "a sample outside the band is rejected");
    CHECK(f.value(far) == far && thrown == (throwing ? 1 : 0), "a sample beyond the limit of consecutive rejections is taken");
    spn::core::set_machine_exception_handler(std::move(old));
    sym_reach("patient");
}

HARNESS(h_precise) { // a band is as precise as the type of its samples
    struct D { double mantissa, decades, offset, distance; };
    static const D ds[3] = {{1, 0.01, 0, 10.232929922807541}, {3, -4, 0, 0.003}, {5, 6, 0.25, 50000000}};
    const D& d = ds[sym::pick("config", 3)];
    bool relative = sym::fork("relative");
    BandPass<double> f(BandPass<double>::Config{.mode = relative ? BandPass<double>::Mode::RELATIVE : BandPass<double>::Mode::ABSOLUTE, .mantissa = d.mantissa, .decades = d.decades, .offset = d.offset, .rejection_limit = 5, .throw_on_rejection_limit = false});
    f.reset_to(0);
    double s = sym::f64("sample"), in = d.distance * (1 - 1e-12), out = d.distance * (1 + 1e-12), far = s - d.offset;
    sym_assume((s >= -1e9) & (s <= 1e9));
    sym_assume(((far >= -in) & (far <= in)) | (far < -out) | (far > out));
    bool inside = (far >= -in) & (far <= in);
    CHECK(f.value(s) == (inside ? s : 0), "a sample within the band is taken, one outside is not");
    sym_reach("precise");
}
