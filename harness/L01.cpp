//@ bounds every level set and every level logged at, through the macros and directly; moments within 795 ms after 0, 99999500, 123456000, 2^32-796 and 2^32 ms, texts of 0..3, 100, 220..245 and 700 (thorough also 4..40, 255, 256 and 2000) characters of any content without 0, numbers within +-1000 with %5d and %lld, and around 0 and both ends of 32 bits with %d; lines of source 0..99999
//@ assume the format fits its arguments
//@ outside log levels overridden per platform; messages longer than the output
//@ harness h_levels
//@ harness h_line parts=8
//@ harness h_numbers parts=4
//@ harness h_printf parts=2
#include "clock.h"
#include "ref.h"
#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"

using namespace spn::logging;
static const int LIMIT = 255;
struct Text {
    char b[3000];
    int n = 0;
    void c(char x) { b[n++] = x; }
    void s(const char* t) { while (*t) c(*t++); }
    void num(int64_t v, int width = 0, char pad = ' ') {
        char t[24];
        int k = 0;
        bool neg = v < 0;
        uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v;
        do { t[k++] = (char)('0' + u % 10); u /= 10; } while (u);
        if (neg && pad != '0') t[k++] = '-';
        while (k < width) t[k++] = pad;
        while (k) c(t[--k]);
    }
};
static Text want;
static void printed(bool newline) {
    int n = want.n < LIMIT ? want.n : LIMIT;
    CHECK((int)rt_stdout_len() == n + newline, "a line has the length of its text, cut off at the size of a message");
    const char* p = rt_stdout_data();
    bool same = true;
    for (int i = 0; i < n; i++) same &= p[i] == want.b[i];
    CHECK(same, "a line shows the time, the level and the text");
    if (newline) CHECK(p[n] == '\n', "a line ends with a newline");
    rt_stdout_reset();
}
static void header(int64_t ms, LogLevel l) {
    static const char* names[5] = {"OFF", "ERR", "WARN", "INFO", "DBG"};
    want.n = 0;
    want.c('[');
    want.num((int64_t)(uint32_t)ms, 8, '0');
    want.s("] [");
    want.s(names[(int)l]);
    want.s("] ");
}
static LogLevel level(const char* n) { return (LogLevel)sym::pick(n, 5); }
static int calls;
static int arg() { return ++calls; }

HARNESS(h_levels) {
    CHECK(log_level() == LogLevel::INFO, "informational messages are logged unless set otherwise");
    for (int i = 0; i < QT(2, 3); i++) {
        LogLevel set = level("level");
        set_log_level(set);
        CHECK(log_level() == set, "the level is the one set");
        LogLevel at = level("message");
        CHECK(is_loggable(at) == ((int)at <= (int)set), "levels up to the one set are logged");
        calls = 0;
        rt_stdout_reset();
        switch (at) {
        case LogLevel::ERR: ERR("text %d", arg()); break;
        case LogLevel::WARN: WARN("text %d", arg()); break;
        case LogLevel::INFO: LOG("text %d", arg()); break;
        default: calls = -1;
        }
        if (calls < 0) continue;
        bool on = (int)at <= (int)set;
        CHECK(calls == on, "what is not logged is not evaluated, what is logged is evaluated once");
        CHECK((rt_stdout_len() > 0) == on, "exactly the levels enabled are printed");
        if (on) { header(0, at); want.s("text 1"); printed(true); }
    }
    sym_reach("end");
}
static int length() {
    static const int l[] = {0, 1, 2, 3, 100, 700, 255, 256, 2000};
    int k = (int)sym::pick("length", QT(6, 9) + 26 + QT(0, 37));
    if (k < QT(6, 9)) return l[k];
    k -= QT(6, 9);
    return k < 26 ? 220 + k : 4 + k - 26;
}
static char text[2001];
static int fill() {
    int n = length();
    for (int i = 0; i < n; i++) {
        text[i] = (char)sym::u8("c");
        sym_assume(text[i] != 0);
    }
    text[n] = 0;
    return n;
}
static int64_t moment() {
    static const int64_t base[5] = {0, 99999500, 4294966500, 4294967296, 123456000};
    int64_t ms = base[sym::pick("around", 5)] + sym::range("ms", 0, 795);
    clock_set(ms);
    return ms;
}
HARNESS(h_line) {
    clock_set(1234567);
    fill();
    LogLevel l = level("level");
    int line = (int)sym::pick("line", 3) * 4321;
    rt_stdout_reset();
    detail::print(l, "dir/file.cpp", line, "some_function", "%s", text);
    header(1234567, l);
    want.s(text);
    if (l == LogLevel::DEBUG) { want.s(" (dir/file.cpp:"); want.num(line); want.s(" some_function)"); }
    printed(true);
    sym_reach("end");
}
HARNESS(h_numbers) {
    int64_t ms = moment();
    static const int around[3] = {0, 2147483500, -2147483548};
    int which = (int)sym::pick("format", 3);
    int v = which ? 0 : around[sym::pick("around", 3)] + (int)sym::range("v", -100, 147);
    long long w = which ? sym::range("w", -1000, 1000) : 0;
    rt_stdout_reset();
    switch (which) {
    case 0: detail::print(LogLevel::INFO, "f", 1, "g", "v=%d", v); header(ms, LogLevel::INFO); want.s("v="); want.num(v); break;
    case 1: detail::print(LogLevel::ERR, "f", 1, "g", "%5d|%u", (int)w, 7u); header(ms, LogLevel::ERR); want.num(w, 5); want.s("|7"); break;
    default: detail::print(LogLevel::WARN, "f", 1, "g", "%s %lld%%", "a", w); header(ms, LogLevel::WARN); want.s("a "); want.num(w); want.s("%"); break;
    }
    printed(true);
    sym_reach("end");
}
HARNESS(h_printf) {
    fill();
    int w = (int)sym::range("w", -1000, 1000);
    rt_stdout_reset();
    want.n = 0;
    HAL::printf("%s%d", text, w);
    want.s(text);
    want.num(w);
    printed(false);
    HAL::println(text);
    want.n = 0;
    want.s(text);
    int n = want.n;
    CHECK((int)rt_stdout_len() == n + 1 && rt_stdout_data()[n] == '\n', "printing a line adds a newline");
    sym_reach("end");
}
