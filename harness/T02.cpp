//@ bounds schedules of up to 3 (thorough 4) blocks in any order with symbolic whole second starts and durations and any values; any second of the day; also 24 hourly blocks with a common symbolic offset, length and base value
//@ assume blocks start within the day, last at least a second, total at most 24 hours and do not overlap (also across midnight)
//@ outside other longer schedules; overlapping blocks
//@ defs -DDEBUG_SPINE
//@ harness h_schedule parts=4
//@ harness h_hours parts=2 tparts=8
#include "ref.h"
#include "spine/structure/time/schedule.hpp"
using spn::structure::time::Schedule;
static const int64_t DAY = 86400;
struct Halt : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { sym_fail("a valid schedule trips an assertion"); }
};
HARNESS(h_schedule) {
    spn::core::set_machine_exception_handler(std::make_unique<Halt>());
    int n = (int)sym::pick("blocks", QT(4, 5));
    int64_t start[4], dur[4], total = 0;
    float value[4];
    for (int i = 0; i < n; i++) {
        start[i] = sym::range("start", 0, DAY - 1);
        dur[i] = sym::range("duration", 1, DAY);
        value[i] = sym::f32("value");
        total += dur[i];
        for (int j = 0; j < i; j++) { // no overlap on the circle of the day
            int64_t d = start[i] - start[j];
            sym_assume((d >= 0 ? d : d + DAY) >= dur[j] && (d > 0 ? DAY - d : -d) >= dur[i]);
        }
    }
    sym_assume(total <= DAY);
    using B = Schedule::Block;
    auto b = [&](int i) { return B{k_time_s(start[i]), k_time_s(dur[i]), value[i]}; };
    Schedule s = n == 0 ? Schedule(std::initializer_list<B>{}) : n == 1 ? Schedule({b(0)}) : n == 2 ? Schedule({b(0), b(1)}) : n == 3 ? Schedule({b(0), b(1), b(2)}) : Schedule({b(0), b(1), b(2), b(3)});
    int64_t t = sym::range("t", 0, DAY - 1);
    uint32_t got = (uint32_t)sym::bits(s.value_at(k_time_s(t)));
    bool any = false;
    for (int i = 0; i < n; i++) {
        int64_t d = t - start[i];
        bool inside = (d >= 0 ? d : d + DAY) < dur[i];
        any = any | inside;
        CHECK(!inside | (got == (uint32_t)sym::bits(value[i])), "the value is that of the block that holds the moment");
    }
    CHECK(any | (got == 0), "between blocks the value is zero");
    int64_t next = s.start_of_next_block(k_time_s(t)).raw();
    bool found = next == DAY;
    for (int i = 0; i < n; i++) {
        CHECK((start[i] <= t) | (next <= start[i]), "no block starts between the moment and the next block");
        found = found | ((start[i] > t) & (next == start[i]));
    }
    CHECK(found, "the next block is one that starts later today, or the end of the day");
    sym_reach("schedule");
}

HARNESS(h_hours) { // a block for each hour, one value apart
    spn::core::set_machine_exception_handler(std::make_unique<Halt>());
    using B = Schedule::Block;
    int64_t off = sym::range("offset", 0, 3599), len = sym::range("length", 1, 3600);
    float v = sym::f32("value");
    sym_assume((v >= 0) & (v <= 1));
#define HB(i) B{k_time_s((i) * 3600 + off), k_time_s(len), (float)(i) + v}
    Schedule s({HB(0), HB(1), HB(2), HB(3), HB(4), HB(5), HB(6), HB(7), HB(8), HB(9), HB(10), HB(11), HB(12), HB(13), HB(14), HB(15), HB(16), HB(17), HB(18), HB(19), HB(20), HB(21), HB(22), HB(23)});
    static const int hs[5] = {0, 1, 12, 22, 23};
    int h = QT(hs[sym::pick("hour", 5)], (int)sym::pick("hour", 24));
    int64_t in = sym::range("within", 0, 3599), t = h * 3600 + in;
    float got = s.value_at(k_time_s(t));
    int64_t d = in - off;
    int b = d >= 0 ? h : (h + 23) % 24; // the block that started last
    if (d < 0) d += 3600;
    if (d < len) CHECK(got == (float)b + v, "the value is that of the block that holds the moment");
    else CHECK(got == 0, "between blocks the value is zero");
    int64_t next = in < off ? h * 3600 + off : h < 23 ? (h + 1) * 3600 + off : DAY;
    CHECK(s.start_of_next_block(k_time_s(t)).raw() == next, "the next block is one that starts later today, or the end of the day");
    sym_reach("hours");
}
