//@ bounds frames of 1, 2, 3, 2.5, 10 and 100 samples, single and double precision; 5 (thorough 8) samples, each any number within +-1000, with a reset to any such number at any point; frames of 255, 256 and 300 over 310 samples, and of 66000 over 66010, of which the last is symbolic
//@ assume none
//@ outside readings beyond +-1000 or that are not numbers; frames shorter than one sample; deviations below 0.01
//@ harness h_average parts=4 qtimeout=3000
//@ harness h_constant
//@ harness h_long steps=40000000 qtimeout=3000
#include "ref.h"
#include <algorithm>
#include <memory>
#include "spine/core/exception.hpp"
#include "spine/filter/implementations/ewma.hpp"
using spn::filter::EWMA;
template<typename F> static F num(const char* n);
template<> float num<float>(const char* n) { float f = sym::f32(n); sym_assume(f >= -1000 && f <= 1000); return f; }
template<> double num<double>(const char* n) { double f = sym::f64(n); sym_assume(f >= -1000 && f <= 1000); return f; }
static bool near(double a, double b) { double d = a - b; return d <= 0.01 && d >= -0.01; }
static const double frames[6] = {2, 3, 1, 2.5, 10, 100};
template<typename F> static void average() {
    double K = frames[sym::pick("frame", 6)];
    std::unique_ptr<EWMA<F>> own;
    if (K == 10 && sym::fork("factory")) own = EWMA<F>::Short();
    else if (K == 100 && sym::fork("factory")) own = EWMA<F>::Long();
    else own = std::make_unique<EWMA<F>>(typename EWMA<F>::Config{.K = (F)K});
    EWMA<F>& f = *own;
    double ref = 0, lo = 0, hi = 0;
    int n = 0;
    int at = (int)sym::pick("reset at", QT(4, 6));
    for (int i = 0; i < QT(5, 8); i++) {
        if (at && i == at) {
            F v = num<F>("reset");
            f.reset_to(v);
            CHECK(f.value() == v, "a reset shows the value given until the next sample");
            n = 0;
        }
        F s = num<F>("sample");
        F out;
        if (i % 3 == 0) out = f.value(s);
        else if (i % 3 == 1) { f.new_sample(s); out = f.value(); }
        else out = f(s);
        CHECK(out == f.value(), "the value returned is the value kept");
        if (n == 0) { n = 1; ref = lo = hi = s; CHECK(out == s, "the first sample is taken as it is"); }
        else {
            n++;
            ref += (s - ref) / (n < K ? n : K);
            lo = s < lo ? s : lo;
            hi = s > hi ? s : hi;
        }
        CHECK(near(out, ref), "a sample counts for one in as many as were taken, up to the frame");
        if (n > 1) CHECK((double)out >= lo - 0.01 && (double)out <= hi + 0.01, "the average lies between the samples");
        sym_reach("sample");
    }
}
HARNESS(h_average) {
    if (sym::fork("double")) average<double>();
    else average<float>();
}
HARNESS(h_constant) {
    float s = num<float>("sample");
    EWMA<float> f(EWMA<float>::Config{.K = (float)frames[sym::pick("frame", 6)]});
    for (int i = 0; i < QT(4, 6); i++) CHECK(f.value(s) == s, "a constant input stays exactly as it is");
    sym_reach("end");
}

HARNESS(h_long) { // frames and histories beyond what a byte counts
    static const double ks[4] = {255, 256, 300, 66000};
    double K = ks[sym::pick("frame", 4)];
    EWMA<float> f(EWMA<float>::Config{.K = (float)K});
    double ref = 0;
    int samples = K < 1000 ? 310 : 66010;
    for (int n = 1; n <= samples; n++) {
        float s = n < samples ? (float)((n * 37) % 100) : num<float>("sample");
        float out = f.value(s);
        ref += (s - ref) / (n < K ? n : K);
        CHECK(near(out, ref), "a sample counts for one in as many as were taken, up to the frame");
    }
    sym_reach("long");
}
