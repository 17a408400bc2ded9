//@ bounds texts of up to 3 characters of any content, and texts of 253..258 characters with any two characters somewhere in them, printed in every way there is; UART transfers of up to 4 bytes with any contents, any number waiting, any room, and any byte failing, and of 300 out of 255..300 bytes; analogue outputs with any value between 0 and 1, set and faded in any order of 2 (thorough 3)
//@ assume texts contain no 0
//@ outside printing anything but texts; the Arduino and Zephyr platforms (see P04 and P05)
//@ harness h_print
//@ harness h_long
//@ harness h_uart parts=2
//@ harness h_value parts=2
//@ harness h_uart_wide steps=20000000
#include "stream.h"
#include <algorithm>
#include "spine/platform/hal.hpp"
static bool shown(const char* s, size_t n, bool line) {
    if (rt_stdout_len() != n + line) return false;
    bool ok = true;
    for (size_t i = 0; i < n; i++) ok &= rt_stdout_data()[i] == s[i];
    if (line) ok &= rt_stdout_data()[n] == '\n';
    return ok;
}
HARNESS(h_print) {
    char s[4];
    int n = (int)sym::pick("length", 4);
    for (int i = 0; i < n; i++) { s[i] = (char)sym::u8("text"); sym_assume(s[i] != 0); }
    s[n] = 0;
    char* p = s;
    const char* c = s;
    for (int k = 0; k < 2; k++) {
        rt_stdout_reset();
        bool line = false;
        switch (sym::pick("how", 9)) {
        case 0: HAL::print(s); break;
        case 1: HAL::print(p); break;
        case 2: HAL::print(c); break;
        case 3: HAL::print((const char*)s); break;
        case 4: HAL::println(s); line = true; break;
        case 5: HAL::println(p); line = true; break;
        case 6: HAL::println((const char*)s); line = true; break;
        case 7: HAL::printf("%s", s); break;
        case 8: HAL::printf("%c%s%%", s[0] ? s[0] : '.', n ? s + 1 : ""); CHECK(rt_stdout_len() == (size_t)(n ? n : 1) + 1 && rt_stdout_data()[rt_stdout_len() - 1] == '%', "what is formatted is printed as it is"); continue;
        }
        HAL::printflush();
        CHECK(shown(s, n, line), "a text is printed as it is, with a line end after a line");
    }
    sym_reach("print");
}
HARNESS(h_long) {
    char s[260];
    int n = 253 + (int)sym::pick("length", 6);
    for (int i = 0; i < n; i++) s[i] = (char)('a' + i % 26);
    char x = (char)sym::u8("text"), y = (char)sym::u8("text");
    sym_assume(x != 0 && y != 0);
    s[n - 1] = x;
    s[sym::pick("at", 4) * 84] = y;
    s[n] = 0;
    rt_stdout_reset();
    HAL::printf("%s", s);
    size_t m = rt_stdout_len();
    CHECK(m >= std::min(n, 255) && m <= (size_t)n && shown(s, m, false), "what is formatted is printed; what does not fit in 255 characters may be cut off");
    rt_stdout_reset();
    HAL::print(s);
    CHECK(shown(s, n, false), "a text of any length is printed");
    sym_reach("long");
}
HARNESS(h_uart) {
    FakeStream hw;
    HAL::UART uart({.stream = &hw});
    uart.initialize();
    int waiting = (int)sym::pick("waiting", 5), room = (int)sym::pick("room", 5);
    uint8_t buf[4] = {0xA5, 0xA5, 0xA5, 0xA5};
    for (int i = 0; i < waiting; i++) hw.in[i] = sym::u8("in");
    hw.in_n = waiting;
    hw.room = room;
    int fr = (int)sym::pick("read failure", 4), fw = (int)sym::pick("write failure", 4); // 3: none
    hw.fail_read = fr < 3 ? fr : -1;
    hw.fail_write = fw < 3 ? fw : -1;
    CHECK(uart.available() == (size_t)waiting && uart.available_for_write() == (size_t)room, "the port tells what its stream has");
    int can_read = hw.fail_read >= 0 && hw.fail_read < waiting ? hw.fail_read : waiting, can_write = hw.fail_write >= 0 && hw.fail_write < room ? hw.fail_write : room;
    spn::io::Stream& s = uart;
    if (sym::fork("bulk")) {
        int n = (int)sym::pick("length", 5), e = std::min(n, can_read);
        CHECK(s.read(buf, n) == (size_t)e, "reading tells how many bytes were read");
        for (int i = 0; i < 4; i++) CHECK(buf[i] == (i < e ? hw.in[i] : 0xA5), "the bytes are read in order, and no more");
        for (int i = 0; i < 4; i++) buf[i] = sym::u8("out");
        e = std::min(n, can_write);
        size_t w = sym::fork("view") ? s.write(std::string_view((char*)buf, n)) : s.write(buf, n);
        CHECK(w == (size_t)e && hw.out_n == e, "writing tells how many bytes were written");
        for (int i = 0; i < e; i++) CHECK(hw.out[i] == buf[i], "the bytes are written in order");
    } else {
        for (int i = 0; i < 3; i++) {
            uint8_t v = 0;
            int at = hw.in_at;
            bool ok = s.read(v);
            CHECK(ok == (hw.in_at == at + 1), "a byte is read exactly when the stream has it");
            if (ok) CHECK(v == hw.in[at], "bytes are read in order");
            v = sym::u8("out");
            at = hw.out_n;
            ok = sym::fork("char") ? s.write((char)v) : s.write(v);
            CHECK(ok == (hw.out_n == at + 1), "a byte is written exactly when the stream takes it");
            if (ok) CHECK(hw.out[at] == v, "bytes are written in order");
        }
    }
    sym_reach("uart");
}
HARNESS(h_uart_wide) { // transfers longer than what a byte counts
    WideStream hw;
    HAL::UART uart({.stream = &hw});
    spn::io::Stream& s = uart;
    int waiting = 255 + 15 * (int)sym::pick("waiting", 4), room = 255 + 15 * (int)sym::pick("room", 4), n = 254 + 23 * (int)sym::pick("length", 3);
    for (int i = 0; i < waiting; i++) hw.in[i] = (uint8_t)(i % 251);
    int at = 85 * (int)sym::pick("at", 3);
    hw.in[at] = sym::u8("in");
    hw.in_n = waiting;
    hw.room = room;
    CHECK(uart.available() == (size_t)waiting && uart.available_for_write() == (size_t)room, "the port tells what its stream has");
    uint8_t buf[301] = {};
    size_t e = std::min(n, waiting);
    CHECK(s.read(buf, n) == e, "reading tells how many bytes were read");
    bool ok = true;
    for (size_t i = 0; i < e; i++) ok &= buf[i] == hw.in[i];
    CHECK(ok && buf[e] == 0, "the bytes are read in order, and no more");
    e = std::min(n, room);
    CHECK(s.write(buf, n) == e && (size_t)hw.out_n == e, "writing tells how many bytes were written");
    for (size_t i = 0; i < e; i++) ok &= hw.out[i] == buf[i];
    CHECK(ok, "the bytes are written in order");
    sym_reach("uart");
}
HARNESS(h_value) {
    bool low = sym::fork("active on low");
    AnalogueOutput pin({.pin = 3, .active_on_low = low, .resolution = 8});
    spn::platform::AnalogueOutput<AnalogueOutput>& out = pin;
    if (sym::fork("interface")) out.initialize();
    else pin.initialize();
    CHECK(pin.value() == 0, "an output is off at first");
    for (int i = 0; i < QT(2, 3); i++) {
        float v = sym::f32("value");
        sym_assume(v >= 0 && v <= 1);
        switch (sym::pick("op", 4)) {
        case 0: pin.set_value(v); break;
        case 1: out.set_value(v); break;
        case 2: pin.fade_to(v, 1, k_time_ms(1)); break;
        case 3: out.fade_to(v, 1, k_time_ms(1)); break;
        }
        CHECK(pin.value() == v && out.value() == v, "the value reported is the one that was set last");
    }
    sym_reach("value");
}
