//@ bounds any uptime up to 2^60 us; delays of up to 10^9 us and 2^31 - 1 ms; 3 (thorough 4) operations on the log, which log texts of up to 3 characters of any content at any level or change the level
//@ assume time only passes in delays, which the kernel makes last exactly as long as it was asked
//@ outside the kernel, which is replaced by a recording of what it is asked; halting
//@ defs -UNATIVE -DZEPHYR -DCONFIG_LOG_RUNTIME_FILTERING -I@/sdk/zephyr
//@ harness h_clock
//@ harness h_log parts=2
#include "ref.h"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
namespace board { int64_t us; int panics; }
using namespace board;
int64_t k_uptime_get() { return us / 1000; }
int64_t k_uptime_ticks() { return us / 100; }
uint32_t k_ticks_to_us_near32(uint32_t t) { return t * 100; }
int32_t k_msleep(int32_t ms) { us += (int64_t)ms * 1000; return 0; }
int32_t k_usleep(int32_t n) { us += n; return 0; }
void k_busy_wait(uint32_t n) { us += n; }
void k_panic() { panics++; }
static int logged, level = 3, filters;
static char text[8];
extern "C" void zephyr_stub_log(unsigned l, const char* f, ...) {
    if (l > (unsigned)level) return; // filtered
    logged = (int)l;
    va_list ap;
    va_start(ap, f);
    const char* s = strcmp(f, "%s") == 0 ? va_arg(ap, const char*) : f;
    va_end(ap);
    size_t i = 0;
    for (; s[i] && i < 7; i++) text[i] = s[i];
    text[i] = 0;
}
extern "C" {
struct log_backend { int x; };
static log_backend be;
}
// the log's controls may be declared in a namespace: they have C linkage
extern "C" const void* log_backend_get_by_name(const char*) { return &be; }
extern "C" uint32_t log_filter_set(const void*, uint32_t, int16_t, uint32_t l) { level = (int)l; filters++; return l; }

HARNESS(h_clock) {
    us = sym::range("boot", 0, 1LL << 60);
    int64_t last = HAL::millis().raw();
    for (int i = 0; i < 2; i++) {
        int64_t t = us, d;
        switch (sym::pick("delay", 5)) {
        case 0: d = sym::range("d", 0, 0x7FFFFFFF); HAL::delay_ms(k_time_ms(d)); d *= 1000; break;
        case 1: d = sym::range("d", 0, 1000000000LL); HAL::delay_us(k_time_us(d)); break;
        case 2: d = sym::range("d", 0, 0x7FFFFFFF); HAL::delay(k_time_ms(d)); d *= 1000; break;
        case 3: d = sym::range("d", 0, 0x7FFFFFFF); HAL::delay_ms((uint32_t)d); d *= 1000; break;
        default: d = sym::range("d", 0, 1000000000LL); HAL::delay_us((uint32_t)d); break;
        }
        CHECK(us >= t + d, "a delay takes at least as long as asked for");
        CHECK(us < t + d + 1000, "a delay takes no longer than a millisecond more");
        CHECK(HAL::millis().raw() == us / 1000, "millis() shows the time since boot");
        CHECK(HAL::micros().raw() == (int64_t)(uint32_t)(us / 100 * 100), "micros() shows the time since boot, in 32 bits");
        CHECK(HAL::millis().raw() >= last, "the clock never runs backwards");
        last = HAL::millis().raw();
    }
    sym_reach("clock");
}
HARNESS(h_log) {
    using spn::logging::LogLevel;
    static const LogLevel L[5] = {LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG};
    int set = 3;
    char s[4];
    int n = (int)sym::pick("length", 4);
    for (int i = 0; i < n; i++) { s[i] = (char)sym::u8("text"); sym_assume(s[i] != 0); }
    s[n] = 0;
    for (int i = 0; i < QT(3, 4); i++) {
        if (sym::fork("set")) {
            set = (int)sym::pick("level", 5);
            spn::logging::set_log_level(L[set]);
            CHECK(level == set, "the log's filter follows the log level");
            CHECK(spn::logging::log_level() == L[set], "the log level is the one that was set");
            continue;
        }
        int l = 1 + (int)sym::pick("level", 4);
        logged = 0;
        switch (l) {
        case 1: SPN_ERR("%s", s); break;
        case 2: SPN_WARN("%s", s); break;
        case 3: SPN_LOG("%s", s); break;
        case 4: SPN_LOG_IMPL(LogLevel::DEBUG, "%s", s); break;
        }
        CHECK(logged == (l <= set ? l : 0), "a message is logged at its own level, and only when that level is enabled");
        if (l <= set && l < 4) {
            bool same = true;
            for (int k = 0; k <= n; k++) same &= text[k] == s[k];
            CHECK(same, "the text is logged as it is");
        }
    }
    sym_reach("log");
}
