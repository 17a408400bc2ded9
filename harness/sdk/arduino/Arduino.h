// A board as the Arduino core shows it to a sketch: what is written to it is recorded, what is read from it is set by the
// harness. Only what the platform layer uses.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x0
#define OUTPUT 0x1
#define INPUT_PULLUP 0x2
#define CHANGE 1
#define FALLING 2
#define RISING 3
#define DEFAULT 1
#define EXTERNAL 0
#define NOT_AN_INTERRUPT -1
#define SERIAL 0x0

namespace board {
static const int PINS = 24;
extern int mode[PINS], level[PINS], duty[PINS], input[PINS], resolution, analog[PINS], writes;
struct Isr { void (*fn)(); int mode; };
extern Isr isr[6]; // by number of the interrupt
extern uint64_t us; // since boot
extern bool interrupts;
extern char out[64]; // printed
extern size_t printed, flushed;
extern unsigned long baud;
}
using byte = uint8_t;
void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t value);
int digitalRead(uint8_t pin);
int analogRead(uint8_t pin);
void analogWrite(uint8_t pin, int value);
void analogWriteResolution(int bits);
int digitalPinToInterrupt(uint8_t pin); // pins 2, 3, 21, 20, 19 and 18, as a Mega has them
void attachInterrupt(uint8_t number, void (*fn)(), int mode);
void detachInterrupt(uint8_t number);
void noInterrupts();
unsigned long millis(); // 32 bits on a board
unsigned long micros();
void delay(unsigned long ms);
void delayMicroseconds(unsigned int us);

class Print {
public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t n) { size_t w = 0; while (w < n && write(buffer[w])) w++; return w; }
    size_t print(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t println(const char* s) { size_t n = print(s); return n + print("\r\n"); }
};
class Stream : public Print {
public:
    unsigned long timeout = 1000;
    virtual int available() = 0;
    virtual int read() = 0;
    void setTimeout(unsigned long ms) { timeout = ms; }
    size_t readBytes(uint8_t* buffer, size_t n) { size_t r = 0; int c; while (r < n && (c = read()) >= 0) buffer[r++] = (uint8_t)c; return r; } // gives up once its time is over
};
class HardwareSerial : public Stream {
public:
    uint8_t rx[320] = {}, tx[320] = {};
    size_t head = 0, tail = 0, sent = 0, room = 0, flushes = 0;
    int available() override { return (int)(tail - head); }
    int read() override { return head < tail ? rx[head++] : -1; }
    virtual int availableForWrite() { return (int)room; }
    virtual void flush() { flushes++; }
    size_t write(uint8_t v) override { if (!room) return 0; room--; tx[sent++] = v; return 1; }
    using Print::write;
    void begin(unsigned long b) { board::baud = b; }
};
class Monitor : public HardwareSerial {
public:
    size_t write(uint8_t v) override { if (board::printed < sizeof board::out) board::out[board::printed] = (char)v; board::printed++; return 1; }
    void flush() override { board::flushed++; }
    using Print::write;
};
extern Monitor Serial;
