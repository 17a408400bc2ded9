//@ bounds a few pins, either polarity, resolutions of 1..16 bits, any level of 0..1, any raw reading of 0..1023, 4 (thorough 6) operations on outputs and 3 on interrupts in any order; UART transfers of up to 4 bytes with any contents, any number of bytes waiting and any room for writing, and of 254..300 bytes out of 255..300; any clock a 32 bit counter shows; delays of up to 10^6 us and 10^9 ms
//@ assume analogue readings have 10 bits; interrupts are attached to pins that have one
//@ outside halting, which never returns; the amount of free memory; the board itself, which is replaced by a recording of what is written to it
//@ defs -UNATIVE -DARDUINO=10819 -I@/sdk/arduino
//@ harness h_pins
//@ harness h_pwm parts=2
//@ harness h_adc
//@ harness h_interrupt parts=2
//@ harness h_uart parts=2
//@ harness h_uart_many steps=20000000
//@ harness h_clock
//@ harness h_print
#include "ref.h"
#include "spine/platform/hal.hpp"
namespace board {
int mode[PINS], level[PINS], duty[PINS], input[PINS], resolution = 8, analog[PINS], writes;
Isr isr[6];
uint64_t us;
bool interrupts = true;
char out[64];
size_t printed, flushed;
unsigned long baud;
}
using namespace board;
Monitor Serial;
namespace spn::platform { char* __brkval; }
void pinMode(uint8_t p, uint8_t m) { mode[p] = m; }
void digitalWrite(uint8_t p, uint8_t v) { level[p] = v; writes++; }
int digitalRead(uint8_t p) { return input[p]; }
int analogRead(uint8_t p) { return analog[p]; }
void analogWrite(uint8_t p, int v) { duty[p] = v; writes++; }
void analogWriteResolution(int b) { resolution = b; }
static const int IRQ[6] = {2, 3, 21, 20, 19, 18};
int digitalPinToInterrupt(uint8_t p) { for (int i = 0; i < 6; i++) if (IRQ[i] == p) return i; return NOT_AN_INTERRUPT; }
void attachInterrupt(uint8_t n, void (*fn)(), int m) { if (n < 6) isr[n] = {fn, m}; }
void detachInterrupt(uint8_t n) { if (n < 6) isr[n] = {nullptr, 0}; }
void noInterrupts() { interrupts = false; }
unsigned long millis() { return (uint32_t)(us / 1000); }
unsigned long micros() { return (uint32_t)us; }
void delay(unsigned long ms) { us += (uint64_t)ms * 1000; }
void delayMicroseconds(unsigned int n) { us += n; }

HARNESS(h_pins) {
    static const uint8_t SOME[QT(5, 7)] = {0, 2, 13, 18, 23,
#if THOROUGH
        7, 21
#endif
    };
    uint8_t pin = SOME[sym::pick("pin", QT(5, 7))], other = (pin + 5) % 24;
    bool low = sym::fork("active on low"), on = sym::fork("active");
    for (int i = 0; i < PINS; i++) level[i] = mode[i] = 7;
    DigitalOutput o({.pin = pin, .active_on_low = low});
    o.initialize(on);
    CHECK(mode[pin] == OUTPUT, "an output's pin is an output");
    for (int i = 0; i < QT(4, 6); i++) {
        CHECK(level[pin] == (on != low), "the level of the pin is the state asked for, the other way around for active on low");
        CHECK((o.state() == spn::core::LogicalState::ON) == on, "the state reported is the one asked for");
        if (sym::fork("flip")) { o.flip(); on = !on; }
        else { on = sym::fork("state"); o.set_state(on); }
    }
    DigitalInput in({.pin = other, .pull_up = low});
    in.initialize();
    CHECK(mode[other] == (low ? 2 : 0), "an input is pulled up when asked for");
    input[other] = on;
    CHECK(in.state() == on, "an input reads its pin");
    for (int i = 0; i < PINS; i++) if (i != pin && i != other) CHECK(level[i] == 7 && mode[i] == 7, "other pins are left alone");
    sym_reach("pins");
}
HARNESS(h_pwm) {
    int bits = 1 + (int)sym::pick("resolution", 16), top = (1 << bits) - 1;
    bool low = sym::fork("active on low");
    AnalogueOutput o({.pin = 5, .active_on_low = low, .resolution = (uint8_t)bits});
    duty[5] = -1;
    o.initialize();
    CHECK(resolution == bits, "the resolution is set");
    CHECK(duty[5] == (low ? top : 0), "an output is off at first");
    o.set_value(1);
    CHECK(duty[5] == (low ? 0 : top), "fully on is the largest duty");
    CHECK(o.value() == 1, "the value reported is the one that was set");
    o.set_value(0);
    CHECK(duty[5] == (low ? top : 0), "fully off is no duty");
    float v = sym::f32("value"), w = sym::f32("value");
    sym_assume(v >= 0 && v <= 1 && w >= v && w <= 1);
    o.set_value(v);
    int a = duty[5];
    CHECK(o.value() == v, "the value reported is the one that was set");
    o.set_value(w);
    int b = duty[5];
    CHECK(a >= 0 && a <= top && b >= 0 && b <= top, "the duty is within the resolution");
    CHECK(low ? b <= a : b >= a, "a larger value has no smaller duty");
    float x = low ? 1 - v : v;
    CHECK((float)a >= x * (float)top - 1.02f && (float)a <= x * (float)top + 1.02f, "the duty is in proportion to the value");
    sym_reach("pwm");
}
HARNESS(h_adc) {
    uint8_t pin = (uint8_t)(7 * sym::pick("pin", 4));
    bool up = sym::fork("pull up");
    AnalogueInput in({.pin = pin, .pull_up = up});
    mode[pin] = 7;
    in.initialize();
    CHECK(mode[pin] == (up ? 2 : 7), "an input is pulled up when asked for");
    int r = (int)sym::range("reading", 0, 1023), s = (int)sym::range("reading", 0, 1023);
    analog[pin] = r;
    float a = in.read();
    analog[pin] = s;
    float b = in.read();
    CHECK(a >= 0 && a <= 1, "a reading is between 0 and 1");
    CHECK((r < s) == (a < b) && (r == s) == (a == b), "readings are in order");
    CHECK(a >= r / 1024.0f && a <= r / 1023.0f, "a reading is in proportion");
    sym_reach("adc");
}
static int calls[3];
static void f0() { calls[0]++; }
static void f1() { calls[1]++; }
static void f2() { calls[2]++; }
HARNESS(h_interrupt) {
    using T = spn::core::TriggerType;
    static void (*const F[3])() = {f0, f1, f2};
    static const T MODES[3] = {T::RISING_EDGE, T::FALLING_EDGE, T::RISING_AND_FALLING_EDGE};
    static const int BITS[3] = {3, 2, 1};
    int n = QT(1 + 2 * (int)sym::pick("interrupt", 3), (int)sym::pick("interrupt", 6));
    void (*other)() = f2;
    for (int i = 0; i < 6; i++) isr[i] = {other, 9};
    int fn = (int)sym::pick("callback", 3), md = (int)sym::pick("mode", 3);
    bool up = sym::fork("pull up"), on = false;
    Interrupt irq({.pin = (uint8_t)IRQ[n], .mode = MODES[md], .pull_up = up, .callback = F[fn]});
    irq.initialize();
    CHECK(mode[IRQ[n]] == (up ? 2 : 0), "an interrupt's pin is an input");
    isr[n] = {nullptr, 0};
    for (int i = 0; i < 3; i++) {
        switch (sym::pick("op", 5)) {
        case 0: irq.attach_interrupt(); on = true; break;
        case 3: fn = (fn + 1) % 3; irq.attach_interrupt(F[fn]); on = true; break; // on the same edges as before
        case 4: md = (int)sym::pick("mode", 3); irq.attach_interrupt(nullptr, MODES[md]); on = true; break; // the same callback
        case 1: fn = (fn + 1) % 3; md = (int)sym::pick("mode", 3); irq.attach_interrupt(F[fn], MODES[md]); on = true; break;
        case 2: irq.detach_interrupt(); on = false; break;
        }
        CHECK(isr[n].fn == (on ? F[fn] : nullptr), "the callback is attached until it is detached");
        if (on) CHECK(isr[n].mode == BITS[md], "the callback is attached to the edges asked for");
        for (int k = 0; k < 6; k++) if (k != n) CHECK(isr[k].fn == other && isr[k].mode == 9, "other interrupts are left alone");
    }
    sym_reach("interrupt");
}
HARNESS(h_uart) {
    HardwareSerial hw;
    int waiting = (int)sym::pick("waiting", 5), room = (int)sym::pick("room", 5);
    uint8_t in[4], buf[4] = {0xA5, 0xA5, 0xA5, 0xA5};
    for (int i = 0; i < waiting; i++) hw.rx[i] = in[i] = sym::u8("in");
    hw.tail = waiting;
    hw.room = room;
    int64_t ms = sym::range("timeout", 0, 1000000);
    HAL::UART uart({.stream = &hw, .timeout = k_time_ms(ms)});
    uart.initialize();
    CHECK((int64_t)hw.timeout == ms, "the timeout is set");
    CHECK(uart.available() == (size_t)waiting, "the bytes waiting are counted");
    CHECK(uart.available_for_write() == (size_t)room, "the room for writing is counted");
    if (sym::fork("bulk")) {
        size_t n = (size_t)sym::pick("length", 5);
        size_t r = uart.read(buf, n), e = n < (size_t)waiting ? n : waiting;
        CHECK(r == e, "reading tells how many bytes were read");
        for (size_t i = 0; i < 4; i++) CHECK(buf[i] == (i < e ? in[i] : 0xA5), "the bytes are read in order, and no more");
        for (size_t i = 0; i < 4; i++) buf[i] = sym::u8("out");
        r = uart.write(buf, n);
        e = n < (size_t)room ? n : room;
        CHECK(r == e && hw.sent == e, "writing tells how many bytes were written");
        for (size_t i = 0; i < e; i++) CHECK(hw.tx[i] == buf[i], "the bytes are written in order");
    } else {
        for (int i = 0; i < 4; i++) {
            uint8_t v = 0x5A;
            bool ok = uart.read(v);
            CHECK(ok == (i < waiting), "a byte is read exactly when one is waiting");
            if (i < waiting) CHECK(v == in[i], "bytes are read in order");
            v = sym::u8("out");
            ok = uart.write(v);
            CHECK(ok == (i < room), "a byte is written exactly when there is room");
            if (i < room) CHECK(hw.sent == (size_t)i + 1 && hw.tx[i] == v, "bytes are written in order");
        }
    }
    uart.flush();
    CHECK(hw.flushes == 1, "flushing flushes");
    sym_reach("uart");
}
HARNESS(h_uart_many) { // transfers longer than what a byte counts
    HardwareSerial hw;
    HAL::UART uart({.stream = &hw});
    int waiting = 255 + 15 * (int)sym::pick("waiting", 4), room = 255 + 15 * (int)sym::pick("room", 4), n = 254 + 23 * (int)sym::pick("length", 3);
    for (int i = 0; i < waiting; i++) hw.rx[i] = (uint8_t)(i % 251);
    int at = 85 * (int)sym::pick("at", 3);
    hw.rx[at] = sym::u8("in");
    hw.tail = waiting;
    hw.room = room;
    CHECK(uart.available() == (size_t)waiting && uart.available_for_write() == (size_t)room, "the bytes waiting and the room are counted");
    uint8_t buf[301] = {};
    size_t e = n < waiting ? n : waiting;
    CHECK(uart.read(buf, n) == e, "reading tells how many bytes were read");
    bool ok = true;
    for (size_t i = 0; i < e; i++) ok &= buf[i] == hw.rx[i];
    CHECK(ok && buf[e] == 0, "the bytes are read in order, and no more");
    e = n < room ? n : room;
    CHECK(uart.write(buf, n) == e && hw.sent == e, "writing tells how many bytes were written");
    for (size_t i = 0; i < e; i++) ok &= hw.tx[i] == buf[i];
    CHECK(ok, "the bytes are written in order");
    sym_reach("uart");
}
HARNESS(h_clock) {
    us = (uint64_t)sym::range("boot", 0, 1LL << 44);
    for (int i = 0; i < 2; i++) {
        CHECK(HAL::millis().raw() == (int64_t)(uint32_t)(us / 1000), "millis() shows the board's clock");
        CHECK(HAL::micros().raw() == (int64_t)(uint32_t)us, "micros() shows the board's clock");
        uint64_t t = us;
        int64_t d;
        switch (sym::pick("delay", 5)) {
        case 0: d = sym::range("d", 0, 1000000000LL); HAL::delay_ms(k_time_ms(d)); d *= 1000; break;
        case 1: d = sym::range("d", 0, 1000000LL); HAL::delay_us(k_time_us(d)); break;
        case 2: d = sym::range("d", 0, 1000000000LL); HAL::delay(k_time_ms(d)); d *= 1000; break;
        case 3: d = sym::range("d", 0, 1000000000LL); HAL::delay_ms((uint32_t)d); d *= 1000; break;
        default: d = sym::range("d", 0, 1000000LL); HAL::delay_us((uint32_t)d); break;
        }
        CHECK(us == t + (uint64_t)d, "a delay takes as long as asked for");
    }
    sym_reach("clock");
}
HARNESS(h_print) {
    unsigned long b = (unsigned long)sym::pick("baud", 2) * 9600;
    HAL::initialize({.baudrate = (uint32_t)b});
    CHECK(baud == b, "the monitor is opened with the rate asked for, or not at all");
    char text[4];
    int n = (int)sym::pick("length", 4);
    for (int i = 0; i < n; i++) { text[i] = (char)sym::u8("text"); sym_assume(text[i] != 0); }
    text[n] = 0;
    const char* p = text;
    bool line = false;
    switch (sym::pick("how", 4)) {
    case 0: HAL::print(text); break;
    case 1: HAL::print(p); break;
    case 2: HAL::println(text); line = true; break;
    case 3: HAL::printf("%s", text); break;
    }
    CHECK(printed == (size_t)n + (line ? 2 : 0), "the text is printed, and a line end after a line");
    for (int i = 0; i < n; i++) CHECK(out[i] == text[i], "the text is printed as it is");
    if (line) CHECK(out[n] == '\r' && out[n + 1] == '\n', "the text is printed, and a line end after a line");
    HAL::printflush();
    CHECK(flushed == 1, "flushing flushes");
    sym_reach("print");
}
