//@ bounds a start and an end anywhere between 0 and 1 (symbolic), increments 0.1 (the default), 0.25, 0.3, 0.5 and 1 (thorough also 0.07 and 0.12), intervals of 0..10^10 ms; also 2 (thorough 3) fades in a row between 7 (thorough 11) fixed values, which include whole numbers of increments; 4 (thorough 6) operations on a digital output in any order; also full fades of 255, 256 and 500 steps
//@ assume increments are positive
//@ outside deviations below 10^-4; symbolic distances within 10^-5 of a whole number of increments; the Arduino pins, which P04 covers
//@ harness h_digital
//@ harness h_fade parts=8 qtimeout=2000
//@ harness h_fades parts=4
//@ harness h_slow steps=20000000
#include "clock.h"
#include "ref.h"
#include <algorithm>
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"

using spn::core::LogicalState;
struct Pin : spn::platform::DigitalOutput<Pin> {
    int writes = 0, inits = 0;
    LogicalState pin = LogicalState::UNDEFINED;
    void initialize_impl() { inits++; }
    void set_state_impl(LogicalState s) { writes++; pin = s; }
};
HARNESS(h_digital) {
    Pin p;
    bool on = sym::fork("active");
    p.initialize(on);
    CHECK(p.inits == 1, "initialising an output initialises its pin once");
    CHECK((p.state() == LogicalState::ON) == on && p.pin == p.state(), "an output starts in the state asked for");
    for (int i = 0; i < QT(4, 6); i++) {
        int before = p.writes;
        switch (sym::pick("op", 4)) {
        case 0: p.flip(); on = !on; break;
        case 1: on = sym::fork("state"); p.set_state(on); break;
        case 2: on = sym::fork("state"); p.set_state(on ? LogicalState::ON : LogicalState::OFF); break;
        case 3: on = false; p.initialize(); break;
        }
        CHECK(p.writes == before + 1, "every change is written to the pin");
        CHECK(p.pin == (on ? LogicalState::ON : LogicalState::OFF), "the pin has the state asked for");
        CHECK(p.state() == p.pin, "the state reported is that of the pin");
    }
    sym_reach("end");
}
struct Dac : spn::platform::AnalogueOutput<Dac> {
    float pin = -1, start = 0, limit = 0, from = 0, to = 0;
    int writes = 0;
    int64_t interval = 0, last = 0;
    void set_value(float v) {
        CHECK(v >= 0.0f && v <= 1.0f, "every value written is between 0 and 1");
        if (writes) {
            CHECK((from <= to ? v >= pin : v <= pin), "a fade goes in one direction");
            CHECK((from <= to ? v <= to : v >= to), "a fade does not overshoot");
            CHECK((int64_t)HAL::millis().raw() - last >= interval, "steps of a fade are an interval apart");
        }
        double step = (double)v - (writes ? pin : start);
        CHECK(step <= limit + 1e-4 && step >= -limit - 1e-4, "no step of a fade is larger than the increment");
        last = (int64_t)HAL::millis().raw();
        pin = v;
        writes++;
    }
};
static float unit(const char* n) { float f = sym::f32(n); sym_assume(f >= 0.0f && f <= 1.0f); return f; }
static void fade(Dac& d, spn::platform::AnalogueOutput<Dac>& out, float from, float to, float increment, bool defaults, int64_t interval) {
    d.start = d.from = from;
    d.to = to;
    d.limit = increment;
    d.interval = interval;
    d.writes = 0;
    int64_t t0 = (int64_t)HAL::millis().raw();
    if (defaults) out.fade_to(to);
    else out.fade_to(to, increment, k_time_ms(interval));
    CHECK(d.writes > 0 && d.pin == to, "a fade ends with the value asked for");
    CHECK(out.value() == to, "the value reported is the one asked for");
    double steps = ((double)(to > from ? to - from : from - to)) / increment;
    CHECK((double)(d.writes) <= steps + 1.6, "a fade takes no more steps than needed");
    CHECK((int64_t)HAL::millis().raw() - t0 <= d.writes * interval, "a fade takes no longer than an interval per step");
}
static const float incs[7] = {0.1f, 0.25f, 0.5f, 1.0f, 0.3f, 0.07f, 0.12f};
// keeps the distance away from whole numbers of increments
static void apart(float from, float to, float increment) {
    double d = (double)to - from;
    int n = (int)sym::pick("steps", 15);
    sym_assume(n * (double)increment < 1);
    if (sym::fork("down")) d = -d;
    sym_assume(d >= n * (double)increment + 1e-5 && d <= (n + 1) * (double)increment - 1e-5);
}
HARNESS(h_fade) {
    clock_set(5000);
    Dac d;
    spn::platform::AnalogueOutput<Dac>& out = d;
    float from = unit("value"), to = unit("setpoint");
    d.limit = 2;
    out.set_value(from);
    CHECK(out.value() == from && d.pin == from, "setting a value writes it");
    unsigned which = (unsigned)sym::pick("increment", QT(5, 7));
    bool defaults = which == 0 && sym::fork("defaults");
    int64_t interval = defaults ? 250 : sym::range("interval", 0, 10000000000LL);
    apart(from, to, incs[which]);
    fade(d, out, from, to, incs[which], defaults, interval);
    sym_reach("end");
}
// whole numbers of increments, and one fade after another
HARNESS(h_fades) {
    clock_set(5000);
    Dac d;
    spn::platform::AnalogueOutput<Dac>& out = d;
    static const float values[11] = {0, 1, 0.5f, 0.2f, 0.3f, 0.9f, 0.25f, 0.1f, 0.7f, 0.14f, 0.36f};
    unsigned which = (unsigned)sym::pick("increment", 7);
    float from = values[sym::pick("value", QT(7, 11))];
    d.limit = 2;
    out.set_value(from);
    for (int i = 0; i < QT(2, 3); i++) {
        float to = values[sym::pick("setpoint", QT(7, 11))];
        fade(d, out, from, to, incs[which], false, 100);
        from = to;
    }
    sym_reach("end");
}

HARNESS(h_slow) { // more steps than a byte counts
    clock_set(5000);
    Dac d;
    spn::platform::AnalogueOutput<Dac>& out = d;
    static const float is[3] = {1 / 255.0f, 1 / 256.0f, 0.002f};
    bool down = sym::fork("down");
    d.limit = 2;
    out.set_value(down ? 1.0f : 0.0f);
    int64_t interval = sym::range("interval", 0, 100);
    fade(d, out, down ? 1.0f : 0.0f, down ? 0.0f : 1.0f, is[sym::pick("increment", 3)], false, interval);
    CHECK(d.writes >= 255, "no step of a fade is larger than the increment");
    sym_reach("slow");
}
