//@ bounds 4 (thorough 6) readings of any float value, with any float limits low <= high, symbolic minimal and maximal times up to 10^12 ms (0: no maximum) and a symbolic 0..10^13 ms before each reading
//@ assume low <= high and no limit is NaN; a maximal time is 0 or at least the minimal time; at the start the latch counts as having been off for the minimal off time
//@ outside what happens between readings: the latch only moves on a reading
//@ harness h_latch parts=4
#include "clock.h"
#include "ref.h"
#include "spine/controller/sr_latch.hpp"
using spn::controller::SRLatch;
HARNESS(h_latch) {
    clock_set(sym::range("boot", 0, 1000000000000LL));
    float high = sym::f32("high"), low = sym::f32("low");
    sym_assume(low <= high);
    int64_t min_on = sym::range("min_on", 0, 1000000000000LL), min_off = sym::range("min_off", 0, 1000000000000LL);
    int64_t max_on = sym::range("max_on", 0, 1000000000000LL), max_off = sym::range("max_off", 0, 1000000000000LL);
    sym_assume(max_on == 0 || max_on >= min_on);
    sym_assume(max_off == 0 || max_off >= min_off);
    SRLatch latch(SRLatch::Config{.high = high, .low = low,
        .minimal_on_time = k_time_ms(min_on), .maximal_on_time = k_time_ms(max_on),
        .minimal_off_time = k_time_ms(min_off), .maximal_off_time = k_time_ms(max_off)});
    latch.initialize();
    CHECK(!latch.response(), "a fresh latch is off");
    bool on = false;
    int64_t held = min_off; // how long it has been in this state
    for (int i = 0; i < QT(4, 6); i++) {
        int64_t dt = sym::range("dt", 0, 10000000000000LL);
        clock_advance(dt);
        held += dt;
        float v = sym::f32("reading");
        latch.new_reading(v);
        bool now = latch.response();
        int64_t lo = on ? min_on : min_off, hi = on ? max_on : max_off;
        if (held < lo) {
            CHECK(now == on, on ? "stays on for the minimal on time" : "stays off for the minimal off time");
        } else if (hi != 0 && held > hi) {
            CHECK(now != on, on ? "turns off after the maximal on time, whatever the readings"
                                : "turns on after the maximal off time, whatever the readings");
            sym_reach("forced");
        } else if (v > high) {
            CHECK(now, "a reading above the high limit turns it on");
        } else if (v < low) {
            CHECK(!now, "a reading below the low limit turns it off");
        } else {
            CHECK(now == on, "a reading between the limits changes nothing");
            sym_reach("between");
        }
        if (now != on) { held = 0; sym_reach("switched"); }
        on = now;
    }
}
