//@ bounds relay: any target, hysteresis and 6 (thorough 8) readings within +-10^6, 1..3 cycles; gains: the three aggressiveness settings, 3..5 cycles (thorough: 3..6 of each) of swings that stay, start large, grow or shrink, with every half period a symbolic 10..100000 ms; whole run: PID::autotune over at most 7 (thorough 9) readings of any value within +-10^6 for up to 2 cycles, with and without a start point; also runs of 254..258 cycles, a run of 4 cycles after a run of any length with the same tuner, and the gains that PID::autotune returns after 3 or 4 cycles
//@ assume the loop is called with a clock that does not run backwards
//@ outside the value written when the run is over (the code turns the output to 0, not to its lower limit); how well the gains control a real process
//@ harness h_relay parts=8 pdepth=6 qtimeout=1500
//@ harness h_gains parts=8 qtimeout=3000
//@ harness h_run parts=8 pdepth=6 qtimeout=1500
//@ harness h_many
//@ harness h_twice qtimeout=3000
//@ harness h_returned qtimeout=3000
#include "clock.h"
#include "ref.h"
#include "spine/controller/pid.hpp"
using namespace spn::controller;
typedef PIDAutotuner::Aggressiveness Agg;
static float bounded(const char* n, float lim) {
    float f = sym::f32(n);
    sym_assume(f >= -lim && f <= lim);
    return f;
}
struct Relay { // reference
    float target, hyst;
    int cycles, cycle = 0;
    bool on = true;
    bool finished() const { return cycle >= cycles; }
    void read(float v) {
        if (on && v > target + hyst) on = false;
        if (!on && v < target - hyst) { on = true; cycle++; }
        if (finished()) on = false;
    }
};
HARNESS(h_relay) {
    float target = bounded("target", 1000000), hyst = bounded("hysteresis", 1000);
    int cycles = 1 + (int)sym::pick("cycles", 3);
    PIDAutotuner t;
    t.set_target_input_value(target);
    t.set_hysteresis(hyst);
    t.set_loop_interval(k_time_ms(100));
    t.setOutputRange(-50, 200);
    t.set_tuning_cycles(cycles);
    t.start_tuning_loop(k_time_ms(0));
    Relay ref{target, hyst < 0 ? -hyst : hyst, cycles};
    CHECK(!t.is_finished() && t.get_cycle() == 0, "a fresh run has no cycles");
    for (int i = 0; i < QT(6, 8) && !ref.finished(); i++) {
        float v = bounded("reading", 1000000);
        float out = t.do_autotune(v, k_time_ms(100 * (i + 1)));
        ref.read(v);
        CHECK(out == (ref.on ? 200.0f : -50.0f), "the output is a limit, and switches at the target and its hysteresis");
        CHECK(t.get_cycle() == ref.cycle, "a cycle ends when the reading has dropped below the target");
        CHECK(t.is_finished() == ref.finished(), "the run is finished after the configured cycles");
        if (ref.finished()) sym_reach("finished");
    }
}
HARNESS(h_gains) {
    static const double kpc[3] = {0.6, 0.33, 0.2}, tic[3] = {0.5, 0.5, 0.5}, tdc[3] = {0.125, 0.33, 0.33};
    int a = (int)sym::pick("aggressiveness", 3);
    // the swings: always the same, a large first one, growing, shrinking
    static const float ups[4][6] = {{20.5f, 20.5f, 20.5f, 20.5f, 20.5f, 20.5f}, {40, 12, 12, 12, 12, 12}, {12, 13, 15, 18, 22, 27}, {30, 25, 21, 18, 16, 15}};
    static const float downs[4][6] = {{6, 6, 6, 6, 6, 6}, {-20, 6, 6, 6, 6, 6}, {8, 7, 5, 2, -2, -7}, {-10, -5, -1, 2, 4, 5}};
    int pattern = (int)sym::pick("swings", 4);
    int cycles = 3 + QT((a + pattern) % 3, (int)sym::pick("cycles", 4));
    const float up = 20.5f, down = 6;
    PIDAutotuner t;
    t.set_target_input_value(10);
    t.set_hysteresis(0.5f);
    t.set_loop_interval(k_time_ms(100));
    t.setOutputRange(0, 255);
    t.set_aggressiveness(a == 0 ? Agg::BasicPID : a == 1 ? Agg::LessOvershoot : Agg::NoOvershoot);
    t.set_tuning_cycles(cycles);
    int64_t now = 0;
    t.start_tuning_loop(k_time_ms(now));
    const double same = kpc[a] * (4 * (255 / 2.0)) / (3.14159265358979 * (up - down) / 2);
    double kp = 0, kd = 0;
    for (int c = 0; c < cycles; c++) {
        int64_t high = sym::range("high", 10, 100000), low = sym::range("low", 10, 100000);
        now += high;
        t.do_autotune(11, k_time_ms(now)); // crosses the target
        t.do_autotune(ups[pattern][c], k_time_ms(now)); // the swing
        t.do_autotune(11, k_time_ms(now));
        now += low;
        CHECK(!t.is_finished(), "the run is not finished early");
        t.do_autotune(9, k_time_ms(now));
        if (!t.is_finished()) {
            t.do_autotune(downs[pattern][c], k_time_ms(now));
            t.do_autotune(9, k_time_ms(now));
        }
        if (c >= 2) {
            double k = kpc[a] * (4 * (255 / 2.0)) / (3.14159265358979 * (ups[pattern][c] - downs[pattern][c - 1]) / 2);
            kp += k / (cycles - 2);
            kd += tdc[a] * k * (double)(high + low) / 100 / (cycles - 2);
        }
    }
    CHECK(t.is_finished(), "the run is finished after the configured cycles");
    double p = t.get_Kp(), d = t.get_Kd();
    CHECK(p >= kp * 0.999 && p <= kp * 1.001, "the proportional gain follows from the swings, all but those of the first two cycles");
    CHECK(d >= kd * 0.998 && d <= kd * 1.002, "the derivative gain is the average over all but the first two cycles");
    sym_reach("gains");
    if (cycles == 3) { // the same period in each cycle
        PIDAutotuner u;
        u.set_target_input_value(10);
        u.set_loop_interval(k_time_ms(100));
        u.setOutputRange(0, 255);
        u.set_aggressiveness(a == 0 ? Agg::BasicPID : a == 1 ? Agg::LessOvershoot : Agg::NoOvershoot);
        u.set_tuning_cycles(4);
        int64_t half = sym::fork("period") ? 500 : 7000, at = sym::range("start", 0, 1000000000000LL);
        u.start_tuning_loop(k_time_ms(at));
        for (int c = 0; c < 4; c++) {
            at += half;
            u.do_autotune(up, k_time_ms(at));
            u.do_autotune(up, k_time_ms(at));
            at += half;
            u.do_autotune(down, k_time_ms(at));
            if (!u.is_finished()) u.do_autotune(down, k_time_ms(at));
        }
        double ki = same / (tic[a] * 2 * half) * 100, i = u.get_Ki();
        CHECK(i >= ki * 0.999 && i <= ki * 1.001, "the integral gain follows from the swing and the period");
    }
}
HARNESS(h_run) {
    clock_set(1000);
    PID::Config cfg;
    cfg.output_lower_limit = -50;
    cfg.output_upper_limit = 200;
    cfg.sample_interval = k_time_ms(2);
    PID pid(cfg);
    pid.initialize();
    float target = bounded("target", 1000000), start = sym::fork("start point") ? 5.0f : 0.0f;
    int cycles = 1 + (int)sym::pick("cycles", 2);
    Relay ref{target, 0.25f, cycles};
    bool heating = start > 0, done = false;
    int reads = 0, writes = 0, pending = 0;
    int64_t last = -1;
    float current = 0;
    PID::TuneConfig tc{.setpoint = target, .startpoint = start, .hysteresis = 0.25f, .satured_at_start = true, .cycles = cycles};
    pid.autotune(tc,
        [&](float v) {
            writes++;
            if (heating) {
                bool hot = !(current < start);
                CHECK(v == (hot ? -50.0f : 200.0f), "the process is driven to its start point at full output");
                if (hot) heating = false;
                return;
            }
            if (ref.finished() && pending == 0) { done = true; return; }
            pending--;
            CHECK(v == (ref.on ? 200.0f : -50.0f), "the process is driven by the relay's output, within the limits");
        },
        [&] {
            if (++reads > QT(7, 9)) sym_stop();
            float v = bounded("reading", 1000000);
            current = v;
            if (heating) return v;
            CHECK(!ref.finished(), "no reading is taken after the last cycle");
            CHECK(pending == 0, "each reading is followed by an output");
            int64_t now = HAL::millis().raw();
            CHECK(last < 0 || now - last == 2, "readings are one sample interval apart");
            last = now;
            ref.read(v);
            pending++;
            return v;
        },
        [&] {});
    CHECK(ref.finished() && done && pending == 0, "the run ends after the configured cycles");
    CHECK(!heating, "the start point has been reached");
    sym_reach("finished");
}

HARNESS(h_many) { // more cycles than a byte counts
    int cycles = 254 + (int)sym::pick("cycles", 5);
    PIDAutotuner t;
    t.set_target_input_value(10);
    t.set_loop_interval(k_time_ms(100));
    t.setOutputRange(0, 255);
    t.set_tuning_cycles(cycles);
    float hot = bounded("hot", 1000), cold = bounded("cold", 1000);
    sym_assume((hot > 11) & (cold < 9));
    int64_t now = 0;
    t.start_tuning_loop(k_time_ms(now));
    for (int c = 0; c < cycles; c++) {
        CHECK(!t.is_finished() && t.get_cycle() == c, "a cycle ends when the reading has dropped below the target");
        t.do_autotune(c < 2 || c == cycles - 1 ? hot : 12, k_time_ms(now += 100));
        t.do_autotune(c < 2 || c == cycles - 1 ? cold : 8, k_time_ms(now += 100));
    }
    CHECK(t.is_finished() && t.get_cycle() == cycles, "the run is finished after the configured cycles");
    sym_reach("many");
}

static void set_up(PIDAutotuner& t, int cycles, Agg a) {
    t.set_target_input_value(10);
    t.set_loop_interval(k_time_ms(100));
    t.setOutputRange(0, 255);
    t.set_aggressiveness(a);
    t.set_tuning_cycles(cycles);
}
static const Agg AGGS[3] = {Agg::BasicPID, Agg::LessOvershoot, Agg::NoOvershoot};
HARNESS(h_twice) { // what was tuned before does not count
    PIDAutotuner used, fresh;
    Agg a = AGGS[sym::pick("aggressiveness", 3)];
    set_up(used, 4, a);
    set_up(fresh, 4, a);
    int64_t now = 0;
    used.start_tuning_loop(k_time_ms(now));
    int before = (int)sym::pick("readings before", 10);
    for (int i = 0; i < before; i++) used.do_autotune(i % 2 ? -30 : 55, k_time_ms(now += 700));
    now += sym::range("pause", 0, 100000);
    used.start_tuning_loop(k_time_ms(now));
    fresh.start_tuning_loop(k_time_ms(now));
    CHECK(!used.is_finished() && used.get_cycle() == 0, "a fresh run has no cycles");
    for (int i = 0; i < 9; i++) {
        float v = i % 3 == 1 ? 10 : i % 2 ? 7 : 14;
        now += sym::range("step", 1, 100000);
        CHECK(used.do_autotune(v, k_time_ms(now)) == fresh.do_autotune(v, k_time_ms(now)), "a run does not depend on the one before");
        CHECK(used.get_cycle() == fresh.get_cycle(), "a run does not depend on the one before");
    }
    for (int i = 0; i < 8 && !fresh.is_finished(); i++) {
        now += 500;
        float v = i % 2 ? 6 + i * 0.25f : 15 - i * 0.25f;
        CHECK(used.do_autotune(v, k_time_ms(now)) == fresh.do_autotune(v, k_time_ms(now)), "a run does not depend on the one before");
    }
    CHECK(used.is_finished() == fresh.is_finished(), "a run does not depend on the one before");
    CHECK(used.get_Kp() == fresh.get_Kp() && used.get_Ki() == fresh.get_Ki() && used.get_Kd() == fresh.get_Kd(), "the gains are those of the last run");
    sym_reach("twice");
}
HARNESS(h_returned) { // the gains returned are those of the tuner
    clock_set(1000);
    int cycles = 3 + (int)sym::pick("cycles", 2), g = (int)sym::pick("aggressiveness", 3), hold = 1 + (int)sym::pick("hold", 3);
    PID::Config cfg;
    cfg.output_lower_limit = 0;
    cfg.output_upper_limit = 255;
    cfg.sample_interval = k_time_ms(100);
    PID pid(cfg);
    pid.initialize();
    PIDAutotuner t;
    set_up(t, cycles, AGGS[g]);
    t.set_hysteresis(0.25f);
    t.start_tuning_loop(HAL::millis());
    PID::TuneConfig tc{.setpoint = 10, .startpoint = 0, .hysteresis = 0.25f, .satured_at_start = true, .cycles = cycles, .aggressiveness = AGGS[g]};
    int reads = 0;
    auto tunings = pid.autotune(tc, [](float) {},
        [&] {
            float v = reads / hold % 2 ? 8 - reads % 3 : 13 + reads % 5;
            reads++;
            t.do_autotune(v, HAL::millis());
            if (reads > 100) sym_stop();
            return v;
        },
        [] {});
    CHECK(t.is_finished(), "the run ends after the configured cycles");
    CHECK(tunings.Kp == t.get_Kp() && tunings.Ki == t.get_Ki() && tunings.Kd == t.get_Kd(), "the gains returned are those of the tuner");
    CHECK(tunings.Kp > 0 && tunings.Ki > 0 && tunings.Kd > 0, "a process that swings yields gains");
    sym_reach("returned");
}
