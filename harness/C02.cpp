//@ bounds limits 0..255 and -100..255; gains (2.5, 0.3, 0.7) and (0, 12, 0), both directions, both kinds of proportionality; any setpoint and 2 (thorough 3) readings, each any float within +-10^6, at intervals of 1 s; for the sampling: 4 (thorough 6) readings of any whole value 0..255, symbolic interval of 1..10^6 ms and a symbolic 0..10^7 ms before each, or an interval of 5*10^9 ms and a symbolic 0..2*10^10 ms before each; a PIDController whose limits are replaced by any within +-1000, at once, halfway an interval or before a reading
//@ assume initialize() was called, and the lower limit is below the upper one
//@ outside readings that are not finite or beyond +-10^6
//@ harness h_limits parts=8 qtimeout=1500 time=170
//@ harness h_sampling parts=2
//@ harness h_narrow parts=2 qtimeout=3000 time=120
#include "clock.h"
#include "ref.h"
#include "spine/controller/pid.hpp"
using spn::controller::PID;
static float bounded(const char* n, float lim) {
    float f = sym::f32(n);
    sym_assume(f >= -lim && f <= lim);
    return f;
}
HARNESS(h_limits) {
    clock_set(5000);
    bool neg = sym::fork("negative"), second = sym::fork("gains");
    PID::Config cfg;
    cfg.tunings = second ? PID::Tunings{.Kp = 0, .Ki = 12.0f, .Kd = 0} : PID::Tunings{.Kp = 2.5f, .Ki = 0.3f, .Kd = 0.7f};
    cfg.output_lower_limit = neg ? -100.0f : 0.0f;
    cfg.output_upper_limit = 255;
    cfg.sample_interval = k_time_ms(1000);
    cfg.direction = sym::fork("reverse") ? PID::Direction::REVERSE : PID::Direction::FORWARD;
    cfg.proportionality = sym::fork("on measurement") ? PID::Proportionality::ON_MEASUREMENT : PID::Proportionality::ON_ERROR;
    PID pid(cfg);
    pid.initialize();
    pid.set_target_setpoint(bounded("setpoint", 1000000));
    for (int i = 0; i < QT(2, 3); i++) {
        clock_advance(1000);
        pid.new_reading(bounded("reading", 1000000));
        float r = pid.response();
        CHECK(r >= cfg.output_lower_limit && r <= cfg.output_upper_limit, "the response stays within the limits");
        sym_reach("reading");
    }
}
HARNESS(h_sampling) {
    bool big = sym::fork("big");
    int64_t t = sym::range("boot", 0, 1000000000LL), interval = big ? 5000000000LL : sym::range("interval", 1, 1000000);
    clock_set(t);
    bool explicit_time = sym::fork("explicit time");
    PID::Config cfg;
    // the response is the reading itself
    cfg.tunings = PID::Tunings{.Kp = 1.0f, .Ki = 0, .Kd = 0};
    cfg.sample_interval = k_time_ms(interval);
    cfg.direction = PID::Direction::REVERSE;
    PID pid(cfg);
    pid.initialize();
    pid.set_tunings(PID::Tunings{.Kp = 1.0f, .Ki = 0, .Kd = 0}, PID::Proportionality::ON_ERROR);
    int64_t last = t, shown = 0;
    bool any = false;
    for (int i = 0; i < QT(4, 6); i++) {
        int64_t dt = sym::range("dt", 0, big ? 20000000000LL : 10000000LL);
        t += dt;
        int64_t v = sym::range("value", 0, 255);
        if (explicit_time) pid.new_reading((float)v, k_time_ms(t));
        else { clock_advance(dt); pid.new_reading((float)v); }
        int64_t r = (int64_t)pid.response();
        CHECK(pid.error() == (float)v, "the error is that of the latest reading");
        if (t - last >= interval) {
            CHECK(r == v, "a reading is acted upon once the sample interval has passed");
            shown = v; last = t; any = true;
            sym_reach("update");
        } else if (any) {
            CHECK(r == shown, "between samples the response does not change");
            sym_reach("held");
        } else { // the first reading may be acted upon at once
            CHECK(r == v || r == shown, "the first response is that of the first reading");
            if (v != 0) { if (r == v) { any = true; last = t; shown = v; } }
            else sym_stop();
        }
    }
}

HARNESS(h_narrow) { // limits that change while the controller runs
    using spn::controller::PIDController;
    clock_set(5000);
    float in = 0, out = 0, set = 100;
    bool integral = sym::fork("integral"), onm = sym::fork("on measurement");
    PIDController p(&in, &out, &set, 2, integral ? 1 : 0, 0.5f, onm ? PIDController::Proportionality::ON_MEASUREMENT : PIDController::Proportionality::ON_ERROR, PIDController::Direction::FORWARD);
    p.set_output_limits(-100, 200);
    p.initialize();
    if (sym::fork("running")) {
        static const float ins[5] = {-1000, 60, 100, 140, 1000};
        in = ins[sym::pick("before", 5)];
        clock_advance(100);
        p.update(HAL::millis());
        CHECK(out >= -100 && out <= 200, "the response stays within the limits");
    }
    float lo = bounded("low", 1000), hi = bounded("high", 1000);
    p.set_output_limits(lo, hi);
    if (!(lo < hi)) lo = -100, hi = 200; // no limits
    CHECK(out >= lo && out <= hi, "the response stays within limits that change");
    clock_advance(50);
    p.update(HAL::millis());
    CHECK(out >= lo && out <= hi, "the response stays within limits that change");
    clock_advance(50);
    in = (float)((int)sym::pick("reading", 3) * 500 - 500);
    p.update(HAL::millis());
    CHECK(out >= lo && out <= hi, "the response stays within limits that change");
    sym_reach("narrow");
}
