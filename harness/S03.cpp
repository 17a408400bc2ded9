//@ bounds capacity 1..4 (thorough 1..5); every reachable read/write offset and fill level; element values symbolic (16 bit); 2 (1 at the largest capacity) arbitrary operations after that state, full read-back after each; also one operation on a buffer of capacity 300 holding 254..300 elements, with bulk transfers of 253..301 and 300 overruns, and on capacities of 65535..65537
//@ assume capacity is at least 1 (precondition of the constructor)
//@ outside other capacities and longer bulk transfers
//@ harness h_ring_ops parts=6 tparts=8 pdepth=4 ttime=600
//@ harness h_ring_wide parts=4 steps=40000000
//@ harness h_ring_huge parts=2 steps=400000000
#include "ref.h"
#include <algorithm>
#include "spine/structure/ringbuffer.hpp"
using spn::structure::RingBuffer;
typedef uint16_t T;
typedef Seq<T, 16> Ref;
static const int MAXCAP = QT(4, 5);

static void same(RingBuffer<T>& b, const Ref& r, int cap) {
    CHECK(b.capacity() == (size_t)cap, "the capacity never changes");
    CHECK(b.used_space() == (size_t)r.n, "used space is the number of elements held");
    CHECK(b.free_space() == (size_t)(cap - r.n), "free space is what is left of the capacity");
    CHECK(b.empty() == (r.n == 0), "empty() tells whether elements are held");
    CHECK(b.full() == (r.n == cap), "full() tells whether the capacity is used up");
    const RingBuffer<T>& c = b;
    for (int i = 0; i < r.n; i++) {
        T v;
        T* p = nullptr;
        CHECK(c.peek_at(v, i) && v == r.v[i], "peeking yields the elements in insertion order");
        CHECK(b.peek_at(&p, i) && *p == r.v[i], "peeking by pointer yields the elements in insertion order");
    }
    T v;
    T* p;
    CHECK(!c.peek_at(v, r.n) && !b.peek_at(&p, r.n), "peeking past the end is refused");
}

HARNESS(h_ring_ops) {
    int cap = 1 + sym::pick("cap", MAXCAP);
    RingBuffer<T> b(cap);
    Ref r;
    uint64_t over = 0;
    int off = sym::pick("offset", cap), n = sym::pick("count", cap + 1);
    for (int i = 0; i < off; i++) { b.push(0xdead); b.pop(); }
    for (int i = 0; i < n; i++) { T x = sym::u16("init"); CHECK(b.push(x), "pushing into free space succeeds"); r.push_back(x); }
    for (int k = 0; k < (cap == MAXCAP ? 1 : 2); k++) {
        T x = sym::u16("x");
        bool overExact = true;
        uint64_t before = b.overrun_space();
        switch (sym::pick("op", 9)) {
        case 0: case 1: {
            bool roll = sym::fork("rollover");
            int len = sym::pick("bulk", 3) == 0 ? -1 : cap + 2;
            if (len < 0) {
                bool ok = b.push(x, roll);
                CHECK(ok == (roll || r.n < cap), "pushing fails only into a full buffer without rollover");
                if (ok) { if (r.n == cap) { r.remove(0); over++; sym_reach("overwrote"); } r.push_back(x); }
            } else {
                len = sym::pick("len", cap + 3);
                T buf[8];
                for (int i = 0; i < len; i++) buf[i] = sym::u16("b");
                size_t w = b.push(buf, len, roll);
                int want = roll ? len : std::min(len, cap - r.n);
                CHECK(w == (size_t)want, "a bulk push reports how many elements were stored");
                for (int i = 0; i < want; i++) { if (r.n == cap) { r.remove(0); over++; } r.push_back(buf[i]); }
            }
            break;
        }
        case 2: { T v; bool ok = b.pop(v); CHECK(ok == (r.n > 0), "popping fails only from an empty buffer"); if (r.n) { CHECK(v == r.remove(0), "pop yields the oldest element"); over = 0; } break; }
        case 3: { bool ok = b.pop(); CHECK(ok == (r.n > 0), "popping fails only from an empty buffer"); if (r.n) { r.remove(0); over = 0; } break; }
        case 4: {
            int len = sym::pick("len", cap + 2);
            T buf[8];
            size_t g = b.pop(buf, len);
            if (len > r.n) CHECK(g == 0, "a bulk pop of more than is held takes nothing");
            else { CHECK(g == (size_t)len, "a bulk pop reports how many elements were taken"); for (int i = 0; i < len; i++) CHECK(buf[i] == r.remove(0), "a bulk pop yields the oldest elements in order"); if (len) over = 0; }
            break;
        }
        case 5: { int d = sym::pick("n", cap + 2); size_t g = b.drop_last(d); int want = std::min(d, r.n); CHECK(g == (size_t)want, "dropping reports how many elements went"); r.n -= want; overExact = false; sym_reach("drop_last"); break; }
        case 6: { int d = sym::pick("n", cap + 2); size_t g = b.drop_first(d); int want = std::min(d, r.n); CHECK(g == (size_t)want, "dropping reports how many elements went"); for (int i = 0; i < want; i++) r.remove(0); overExact = false; break; }
        case 7: b.clear(); r.n = 0; overExact = false; break;
        case 8: { sym_assume(r.n > 0); int i = sym::pick("at", r.n); T* p; CHECK(b.peek_at(&p, i), "peeking at a held element succeeds"); *p = x; r.v[i] = x; break; }
        }
        if (overExact) CHECK(b.overrun_space() == over, "the overrun count is the number of elements overwritten unread");
        else { CHECK(b.overrun_space() <= before, "dropping elements never raises the overrun count"); over = b.overrun_space(); }
        same(b, r, cap);
    }
}

HARNESS(h_ring_wide) { // capacities, transfers and overrun counts beyond what a byte counts
    static const int CAP = 300;
    static T ref[1024], buf[1024];
    static int lo, hi;
    lo = hi = 0;
    RingBuffer<T> b(CAP);
    static const int offs[4] = {0, 44, 256, 299};
    int off = offs[sym::pick("offset", 4)];
    for (int i = 0; i < off; i++) { b.push(0xdead); b.pop(); }
    int n = sym::fork("full") ? CAP : 254 + (int)sym::pick("count", 4);
    for (int i = 0; i < n; i++) { T x = i < 252 || i > 260 ? (T)(i * 7) : sym::u16("init"); CHECK(b.push(x), "pushing into free space succeeds"); ref[hi++] = x; }
    uint64_t over = 0;
    T x = sym::u16("x");
    switch (sym::pick("op", 7)) {
    case 0: { bool roll = sym::fork("rollover"); bool ok = b.push(x, roll); CHECK(ok == (roll || hi - lo < CAP), "pushing fails only into a full buffer without rollover"); if (ok) { if (hi - lo == CAP) { lo++; over++; } ref[hi++] = x; } break; }
    case 1: {
        bool roll = sym::fork("rollover");
        int len = sym::fork("more than all") ? 301 : 257;
        for (int i = 0; i < len; i++) buf[i] = i > 253 ? sym::u16("b") : (T)(i * 5);
        size_t w = b.push(buf, len, roll);
        int want = roll ? len : std::min(len, CAP - (hi - lo));
        CHECK(w == (size_t)want, "a bulk push reports how many elements were stored");
        for (int i = 0; i < want; i++) { if (hi - lo == CAP) { lo++; over++; } ref[hi++] = buf[i]; }
        sym_reach("bulk");
        break;
    }
    case 2: { // many overwritten
        for (int i = 0; i < 300; i++) { b.push((T)i, true); if (hi - lo == CAP) { lo++; over++; } ref[hi++] = (T)i; }
        sym_reach("overrun");
        break;
    }
    case 3: { T v; CHECK(b.pop(v) && v == ref[lo], "pop yields the oldest element"); lo++; break; }
    case 4: {
        int len = 255 + (int)sym::pick("len", 3);
        size_t g = b.pop(buf, len);
        if (len > hi - lo) CHECK(g == 0, "a bulk pop of more than is held takes nothing");
        else { CHECK(g == (size_t)len, "a bulk pop reports how many elements were taken"); for (int i = 0; i < len; i++) CHECK(buf[i] == ref[lo + i], "a bulk pop yields the oldest elements in order"); lo += len; }
        break;
    }
    case 5: { int d = 253 + (int)sym::pick("n", 4); int want = std::min(d, hi - lo); CHECK(b.drop_last(d) == (size_t)want, "dropping reports how many elements went"); hi -= want; break; }
    case 6: { int d = 253 + (int)sym::pick("n", 4); int want = std::min(d, hi - lo); CHECK(b.drop_first(d) == (size_t)want, "dropping reports how many elements went"); lo += want; break; }
    }
    CHECK(b.overrun_space() == over, "the overrun count is the number of elements overwritten unread");
    CHECK(b.capacity() == (size_t)CAP && b.used_space() == (size_t)(hi - lo) && b.free_space() == (size_t)(CAP - (hi - lo)) && b.full() == (hi - lo == CAP) && b.empty() == (hi == lo), "used space is the number of elements held");
    const RingBuffer<T>& c = b;
    T v, *p;
    for (int i = 0; i < hi - lo; i++) CHECK(c.peek_at(v, i) && v == ref[lo + i] && b.peek_at(&p, i) && *p == v, "peeking yields the elements in insertion order");
    CHECK(!c.peek_at(v, hi - lo), "peeking past the end is refused");
    for (int i = 0; hi > lo; i++) { CHECK(b.pop(v) && v == ref[lo], "pop yields the oldest element"); lo++; }
    CHECK(b.empty() && !b.pop(v), "popping fails only from an empty buffer");
}

HARNESS(h_ring_huge) { // fill levels and overrun counts beyond what a half word counts
    const int CAP = 65535 + (int)sym::pick("cap", 3);
    RingBuffer<T> b(CAP);
    int off = sym::fork("offset") ? 2 : 0;
    for (int i = 0; i < off; i++) { b.push(0); b.pop(); }
    for (int i = 0; i < CAP; i++) b.push((T)i ^ 0x5555);
    CHECK(b.capacity() == (size_t)CAP && b.full() && b.used_space() == (size_t)CAP && b.free_space() == 0 && !b.empty(), "used space is the number of elements held");
    T x = sym::u16("x"), v = 0;
    CHECK(!b.push(x) && b.push(x, true) && b.used_space() == (size_t)CAP && b.overrun_space() == 1, "the overrun count is the number of elements overwritten unread");
    const RingBuffer<T>& c = b;
    CHECK(c.peek_at(v, CAP - 1) && v == x && c.peek_at(v, 0) && v == (1 ^ 0x5555) && c.peek_at(v, CAP - 2) && v == ((T)(CAP - 1) ^ 0x5555) && !c.peek_at(v, CAP), "peeking yields the elements in insertion order");
    CHECK(b.drop_last(1) == 1 && b.drop_first(CAP - 3) == (size_t)CAP - 3 && b.used_space() == 2, "dropping reports how many elements went");
    CHECK(b.pop(v) && v == ((T)(CAP - 2) ^ 0x5555) && b.pop(v) && v == ((T)(CAP - 1) ^ 0x5555) && b.empty(), "pop yields the oldest element");
    sym_reach("huge");
}
