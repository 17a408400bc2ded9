// the mock platform's clock, driven by the harness
#pragma once
#include "sym.h"
#include "spine/platform/hal.hpp"
inline void clock_set(int64_t ms) {
    auto& s = spn::platform::MockStateInstance();
    s.millis = k_time_ms(ms);
    s.micros = k_time_us(0);
}
inline int64_t clock_advance(int64_t ms) {
    spn::platform::MockStateInstance().millis += k_time_ms(ms);
    return HAL::millis().raw();
}
