//@ bounds sequences of 4 (thorough 6) delays, each of a symbolic 0..10^9 ms or 0..10^12 us (or any 32 bit number of either, given as a plain number), starting from a symbolic clock
//@ assume the clock is only advanced by delays
//@ outside the Arduino and Zephyr clocks, which P04 and P05 cover
//@ harness h_clock parts=2
#include "ref.h"
#include "spine/platform/hal.hpp"
HARNESS(h_clock) {
    auto& ms = spn::platform::MockStateInstance();
    int64_t m0 = sym::range("boot ms", 0, 1000000000LL), u0 = sym::range("boot us", 0, 1000000000000LL);
    ms.millis = k_time_ms(m0);
    ms.micros = k_time_us(u0);
    int64_t us = m0 * 1000 + u0; // reference clock
    int64_t last_ms = HAL::millis().raw(), last_us = HAL::micros().raw();
    for (int i = 0; i < QT(4, 6); i++) {
        int64_t d;
        switch (sym::pick("how", i < 2 ? 5 : 2)) {
        case 0: d = sym::range("delay", 0, 1000000000000LL); HAL::delay_us(k_time_us(d)); us += d; break;
        case 1: d = sym::range("delay", 0, 1000000000LL); HAL::delay_ms(k_time_ms(d)); us += d * 1000; break;
        case 2: d = sym::range("delay", 0, 1000000000LL); HAL::delay(k_time_ms(d)); us += d * 1000; break;
        case 3: d = sym::range("delay", 0, 0xFFFFFFFFLL); HAL::delay_us((uint32_t)d); us += d; break;
        case 4: d = sym::range("delay", 0, 0xFFFFFFFFLL); HAL::delay_ms((uint32_t)d); us += d * 1000; break;
        }
        int64_t nm = HAL::millis().raw(), nu = HAL::micros().raw();
        CHECK(nu == us, "micros() counts every delay");
        CHECK(nm * 1000 <= us && us < nm * 1000 + 1000, "millis() counts whole milliseconds of the same clock");
        CHECK(nm >= last_ms && nu >= last_us, "the clock never runs backwards");
        last_ms = nm;
        last_us = nu;
        sym_reach("advanced");
    }
}
