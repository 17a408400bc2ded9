//@ bounds gains (2.5, 2, 0.5), (1.5, 0, 1) and (0, 3, 0), sample intervals of 50, 250 and 1500 ms, both directions, both kinds of proportionality, limits -100..255; 2 (thorough 3) readings, each any float within +-1000, any setpoint within +-1000 which changes once, and the gains replaced by others in between; a PIDController whose gains, direction and sample interval change between readings of any float within +-1000
//@ assume initialize() was called; before the first reading the process is taken to be at 0
//@ outside other gains and intervals; a PID that was copied or moved after it was built
//@ harness h_response parts=8 qtimeout=1000 time=170
//@ harness h_tunings time=60
//@ harness h_retune parts=4 qtimeout=3000 time=120
#include "clock.h"
#include "ref.h"
#include "spine/controller/pid.hpp"
using spn::controller::PID;
static float bounded(const char* n, float lim) {
    float f = sym::f32(n);
    sym_assume(f >= -lim && f <= lim);
    return f;
}
static double clamp(double x, double lo, double hi) { x = x > hi ? hi : x; return x < lo ? lo : x; }
static const PID::Tunings gains[3] = {{2.5f, 2.0f, 0.5f}, {1.5f, 0.0f, 1.0f}, {0.0f, 3.0f, 0.0f}};
HARNESS(h_response) {
    clock_set(5000);
    static const int64_t intervals[3] = {250, 50, 1500};
    int64_t T = intervals[sym::pick("interval", 3)];
    PID::Tunings g = gains[sym::pick("gains", 3)];
    bool reverse = sym::fork("reverse"), onm = sym::fork("on measurement");
    PID::Config cfg;
    cfg.tunings = g;
    cfg.output_lower_limit = -100;
    cfg.output_upper_limit = 255;
    cfg.sample_interval = k_time_ms(T);
    cfg.direction = reverse ? PID::Direction::REVERSE : PID::Direction::FORWARD;
    cfg.proportionality = onm ? PID::Proportionality::ON_MEASUREMENT : PID::Proportionality::ON_ERROR;
    PID pid(cfg);
    pid.initialize();
    CHECK(pid.tunings() == g, "the tunings are those configured");
    float set = bounded("setpoint", 1000);
    pid.set_target_setpoint(set);
    CHECK(pid.setpoint() == set, "the setpoint is the one set");
    double sum = 0, last = 0, dt = T / 1000.0;
    for (int i = 0; i < QT(2, 3); i++) {
        if (i == 1) {
            g = gains[1];
            set = bounded("setpoint", 1000);
            pid.set_target_setpoint(set);
            pid.set_tunings(g, cfg.proportionality);
            CHECK(pid.tunings() == g, "the tunings are those set");
        }
        clock_advance(T);
        float v = bounded("reading", 1000);
        pid.new_reading(v);
        double s = reverse ? -1 : 1, e = (double)set - v, d = v - last;
        sum += s * g.Ki * dt * e;
        if (onm) sum -= s * g.Kp * d;
        sum = clamp(sum, -100, 255);
        double out = clamp((onm ? 0 : s * g.Kp * e) + sum - s * g.Kd * d / dt, -100, 255);
        last = v;
        double diff = (double)pid.response() - out;
        CHECK(diff <= 0.05 && diff >= -0.05, "the response is the sum of the proportional, integral and derivative parts");
        CHECK(pid.error() == (set - v >= 0 ? set - v : v - set), "the error is the distance to the setpoint");
        sym_reach("reading");
    }
}

// tunings are equal when each gain is
HARNESS(h_tunings) {
    PID::Tunings a, b;
    float x[3] = {sym::f32("p"), sym::f32("i"), sym::f32("d")}, y[3] = {sym::f32("q"), sym::f32("j"), sym::f32("e")};
    a.Kp = x[0], a.Ki = x[1], a.Kd = x[2];
    b.Kp = y[0], b.Ki = y[1], b.Kd = y[2];
    CHECK((a == b) == (x[0] == y[0] && x[1] == y[1] && x[2] == y[2]), "tunings are equal when each of the gains is");
    PID pid(PID::Config{});
    pid.set_tunings(b);
    CHECK(x[0] != x[0] || x[1] != x[1] || x[2] != x[2] || y[0] != y[0] || y[1] != y[1] || y[2] != y[2] ||
              (pid.tunings() == a) == (a == b),
          "the tunings are those set, each of them");
    sym_reach("tunings");
}

// gains, direction and interval that change while the controller runs
HARNESS(h_retune) {
    using spn::controller::PIDController;
    typedef PIDController::Proportionality P;
    typedef PIDController::Direction Dir;
    clock_set(5000);
    float in = 0, out = 0, set = 0;
    PIDController p(&in, &out, &set, 2, 4, 0.25f, P::ON_ERROR, Dir::FORWARD);
    p.set_output_limits(-1000, 1000);
    p.initialize();
    double kp = 2, ki = 4, kd = 0.25, s = 1, dt = 0.1, sum = 0, last = 0;
    bool onm = false;
    for (int i = 0; i < 2; i++) {
        if (i == 1) switch (sym::pick("change", 6)) {
            case 0: p.set_controller_direction(Dir::REVERSE); s = -1; break;
            case 1: p.set_controller_direction(Dir::FORWARD); break;
            case 2: p.set_sampling_time(k_time_ms(500)); dt = 0.5; break;
            case 3: p.set_tunings(1, 0, 0, P::ON_ERROR); kp = 1, ki = 0, kd = 0; break;
            case 4: p.set_controller_direction(Dir::REVERSE); p.set_tunings(1, 2, 0, P::ON_ERROR); s = -1, kp = 1, ki = 2, kd = 0; break;
            case 5: p.set_sampling_time(k_time_ms(500)); p.set_controller_direction(Dir::REVERSE); p.set_tunings(0.5f, 0, 1, P::ON_MEASUREMENT); s = -1, dt = 0.5, kp = 0.5, ki = 0, kd = 1, onm = true; break;
        }
        clock_advance((int64_t)(dt * 1000));
        set = bounded("setpoint", 1000);
        in = bounded("reading", 1000);
        CHECK(p.update(HAL::millis()), "a reading is acted upon once the sample interval has passed");
        double e = (double)set - in, d = in - last;
        sum += s * ki * dt * e;
        if (onm) sum -= s * kp * d;
        sum = clamp(sum, -1000, 1000);
        double want = clamp((onm ? 0 : s * kp * e) + sum - s * kd * d / dt, -1000, 1000), diff = out - want;
        last = in;
        CHECK(diff <= 0.1 && diff >= -0.1, "the response is the sum of the proportional, integral and derivative parts");
        sym_reach("reading");
    }
}
