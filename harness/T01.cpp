//@ bounds 5 (thorough 7) readings of each timer at symbolic moments: steps of 0..2*10^12 ms, intervals and alarm offsets of up to +-10^12 ms, any boot time up to 10^12 ms
//@ assume the clock does not run backwards and does not leave the 64 bit range
//@ outside absolute alarms that lie in the past at construction (a stated precondition)
//@ harness h_alarm
//@ harness h_interval parts=4
//@ harness h_timer parts=2
#include "ref.h"
#include "clock.h"
#include "spine/structure/time/timers.hpp"
using namespace spn::structure::time;
static const int N = QT(5, 7);
static int64_t boot() {
    int64_t b = sym::range("boot", 0, 1000000000000LL);
    clock_set(b);
    return b;
}
static int64_t step() { return clock_advance(sym::range("step", 0, 2000000000000LL)); }

HARNESS(h_alarm) {
    int64_t now = boot();
    bool absolute = sym::fork("absolute");
    int64_t f = sym::range("future", -1000000000000LL, 1000000000000LL), at = now + f;
    if (absolute) sym_assume(f > 0);
    AlarmTimer a(k_time_ms(absolute ? at : f), absolute);
    bool seen = false;
    for (int i = 0; i < N; i++) {
        CHECK(a.future().raw() == at, "the moment of the alarm is fixed");
        CHECK(a.time_from_now().raw() == at - now, "the time left counts down to the alarm");
        bool e = a.expired();
        CHECK(e == (at <= now), "an alarm has expired from its moment on, and not before");
        if (e) sym_reach("expired");
        else sym_reach("pending");
        seen = e;
        now = step();
    }
    if (seen) { // even when the clock starts over
        clock_set(sym::range("restarted", 0, 1000000000000LL));
        CHECK(a.expired(), "an alarm that has been seen to expire stays expired");
    }
}
HARNESS(h_interval) {
    int64_t now = boot(), prev = now;
    int64_t iv = sym::range("interval", 0, 1000000000000LL);
    bool catchup = sym::fork("catch up");
    IntervalTimer t(k_time_ms(iv), catchup);
    CHECK(t.interval().raw() == iv, "the interval is the one asked for");
    for (int i = 0; i < N; i++) {
        now = step();
        CHECK(t.future().raw() == prev + iv, "the next moment lies one interval after the previous one");
        CHECK(t.time_until_next().raw() == prev + iv - now, "the time left counts down to the next moment");
        if (i == 2 && sym::fork("reset")) { t.reset(); prev = now; }
        bool e = t.expired();
        CHECK(e == (now - prev > iv), "an interval expires once more than the interval has passed");
        if (e) {
            prev = catchup ? prev + iv : now;
            if (catchup) CHECK(t.future().raw() == prev + iv, "catching up keeps the cadence");
            else { CHECK(!t.expired(), "an interval that does not catch up expires once"); sym_reach("expired"); }
        }
    }
}
HARNESS(h_timer) {
    int64_t now = boot(), last = now;
    bool given = sym::fork("epoch given");
    int64_t ep = 0;
    if (given) { ep = sym::range("epoch", 0, 1000000000000LL); last = ep; }
    Timer t = given ? Timer(k_time_ms(ep)) : Timer();
    for (int i = 0; i < N; i++) {
        now = step();
        bool keep = sym::fork("keep");
        CHECK(t.time_since_last(!keep).raw() == now - last, "the timer tells the time since it was last reset");
        if (!keep) last = now;
        sym_reach("read");
    }
    t.reset();
    CHECK(t.time_since_last(Timer::NoReset).raw() == 0, "resetting starts from now");
}
