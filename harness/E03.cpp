//@ bounds up to 3 scheduled events with symbolic delays (1..10^12 ms), symbolic limits (whole milliseconds up to 10^10) and 3 (thorough 5) consecutive loops, clock starting anywhere up to 10^12 ms
//@ assume the limits are whole milliseconds
//@ outside handlers that take time
//@ harness h_delay parts=2
#include "ref.h"
#include "clock.h"
#include "spine/eventsystem/eventsystem.hpp"
using namespace spn::core;
static int64_t g_late;
static int g_fired;
struct H : EventHandler {
    using EventHandler::EventHandler;
    void handle_event(const Event& e) override { g_fired++; int64_t l = HAL::millis().raw() - (e.data().ms().raw()); g_late = l > g_late ? l : g_late; }
};
HARNESS(h_delay) {
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    g_late = 0; g_fired = 0;
    bool on = sym::fork("delay between ticks");
    int64_t mn = sym::range("min", 0, 10000000000LL), mx = sym::range("max", 0, 10000000000LL);
    EventSystem es({1, 4, 1, on, k_time_us(mn * 1000), k_time_us(mx * 1000)});
    H h(&es);
    es.attach(0, &h);
    int n = (int)sym::pick("events", 4);
    int64_t due[3];
    for (int i = 0; i < n; i++) {
        due[i] = now + sym::range("delay", 1, 1000000000000LL);
        es.schedule(0, k_time_ms(due[i] - now), Event::Data(k_time_ms(due[i])));
    }
    bool idle = n == 0;
    for (int k = 0; k < QT(3, 5); k++) {
        int before = g_fired;
        es.loop();
        int64_t t = HAL::millis().raw(), slept = t - now;
        CHECK(slept >= 0, "time does not run backwards");
        if (!on) CHECK(slept == 0, "without delays the loop does not sleep");
        else {
            bool all = true;
            int64_t left = 0;
            for (int i = 0; i < n; i++) if (due[i] > now) { left = all ? due[i] - now : (due[i] - now < left ? due[i] - now : left); all = false; }
            if (all) CHECK(slept == mn, "with nothing scheduled the loop sleeps the configured minimum");
            else {
                CHECK(slept <= mx, "the loop never sleeps longer than the configured maximum");
                CHECK(slept <= left, "the loop never sleeps past the next event");
                CHECK(slept == (left < mx ? left : mx), "the loop sleeps until the next event or the maximum");
                sym_reach("slept");
            }
        }
        now = t;
        (void)before;
    }
    if (on) CHECK(g_late == 0, "with only sleeping loops no event fires late");
    (void)idle;
}
