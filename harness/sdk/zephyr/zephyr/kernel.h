// Zephyr's kernel as the platform layer uses it: time passes when it sleeps.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstring>
namespace board {
extern int64_t us; // since boot
extern int panics;
}
int64_t k_uptime_get();
int64_t k_uptime_ticks(); // a tick is 100 us
uint32_t k_ticks_to_us_near32(uint32_t ticks);
int32_t k_msleep(int32_t ms);
int32_t k_usleep(int32_t us);
void k_busy_wait(uint32_t us);
void k_panic();
