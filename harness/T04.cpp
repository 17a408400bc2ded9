//@ bounds texts of up to 4 (thorough 5) arbitrary bytes; numbers of up to 8 (thorough 11) arbitrary digits followed by any of the units or a wrong one, and numbers around the largest 64 bit value with up to 5 arbitrary digits; printing any whole number of us, ms, s, min, h or d up to 10^12 us, 10^10 ms, 10^9 s, 10^7 min, 10^6 h, 10^5 d
//@ assume printed durations are not negative
//@ outside longer texts; negative durations (their text cannot be parsed)
//@ harness h_parse parts=4
//@ harness h_number parts=2
//@ harness h_huge parts=2
//@ harness h_repr parts=3
#include "ref.h"
#include <string>
#include "spine/core/utils/time_repr.hpp"
using namespace spn::core::utils;
static const char* UNIT[7] = {"us", "ms", "s", "m", "h", "d", "x"};
static const int64_t US[6] = {1, 1000, 1000000, 60000000LL, 3600000000LL, 86400000000LL};
typedef decltype(parse_time("")) Parsed;
static int64_t value(const Parsed& p) { return std::visit([](auto& t) { return (int64_t)t.raw(); }, *p); }

HARNESS(h_parse) { // any short text
    int n = (int)sym::pick("length", QT(5, 6));
    char* b = new char[n]; // exactly as long as the view
    for (int i = 0; i < n; i++) b[i] = (char)sym::u8("c");
    auto p = parse_time(std::string_view(b, n));
    int dig = 0;
    int64_t v = 0;
    while (dig < n && b[dig] >= '0' && b[dig] <= '9') v = v * 10 + (b[dig++] - '0');
    int unit = 6;
    if (dig > 0) {
        int r = n - dig;
        if (r == 2 && b[dig] == 'u' && b[dig + 1] == 's') unit = 0;
        if (r == 2 && b[dig] == 'm' && b[dig + 1] == 's') unit = 1;
        for (int u = 2; u < 6; u++) if (r == 1 && b[dig] == UNIT[u][0]) unit = u;
    }
    CHECK(p.has_value() == (unit < 6), "a text is a time exactly when it is a number followed by a unit");
    if (p) {
        CHECK((int)p->index() == unit, "the unit is the one written");
        CHECK(value(p) == v, "the value is the one written");
        sym_reach("parsed");
    }
    delete[] b;
}
HARNESS(h_number) { // numbers of any size
    int n = (int)sym::pick("digits", QT(9, 12)), u = (int)sym::pick("unit", 7);
    std::string s;
    int64_t v = 0;
    for (int i = 0; i < n; i++) {
        int64_t d = sym::range("digit", 0, 9);
        s += (char)('0' + d);
        v = v * 10 + d;
    }
    s += UNIT[u];
    auto p = parse_time(s);
    CHECK(p.has_value() == (n > 0 && u < 6), "a number is a time as long as it has digits and a unit");
    if (p) CHECK((int)p->index() == u && value(p) == v, "the time is the one written");
}
HARNESS(h_huge) { // around the largest value there is: 9223372036854775807
    int zeros = (int)sym::pick("zeros", 3), u = (int)sym::pick("unit", 6);
    std::string s(zeros, '0');
    int64_t first = sym::range("first", 0, 9);
    s += (char)('0' + first);
    s += "9223372036854775";
    int64_t low = 0;
    int more = (int)sym::pick("more", 5);
    for (int i = 0; i < more; i++) {
        int64_t d = sym::range("digit", 0, 9);
        s += (char)('0' + d);
        low = low * 10 + d;
    }
    s += UNIT[u];
    auto p = parse_time(s);
    // f9223372036854775 followed by none to four digits
    bool fits = more < 2 || (more == 2 && first < 9) || (more == 3 && first == 0 && low <= 807);
    CHECK(p.has_value() == fits, "a number that does not fit is no time");
    if (p) {
        int64_t scale = 1, head = 9223372036854775LL;
        for (int i = 0; i < more; i++) scale *= 10;
        CHECK((int)p->index() == u && value(p) == (int64_t)((uint64_t)first * 10000000000000000ull * scale + (uint64_t)head * scale + low), "the time is the one written");
        sym_reach("huge");
    } else sym_reach("does not fit");
}
template<typename T> static void repr_of(int from, int64_t lim) {
    int64_t v = sym::range("v", 0, lim);
    std::string s = repr(T(v));
    auto p = parse_time(s);
    CHECK(p.has_value(), "the text of a duration is a duration");
    int u = (int)p->index();
    int64_t w = value(p);
    // the nearest whole number of the unit printed (halves up)
    if (US[u] >= US[from]) {
        int64_t d = US[u] / US[from], e = v - w * d;
        CHECK(2 * e < d && 2 * e >= -d, "the text shows the duration, rounded to its unit");
    } else CHECK(w == v * (US[from] / US[u]), "the text shows the duration, rounded to its unit");
    static const int64_t LIM[6] = {1000, 1000, 900, 1440, 24, 0};
    CHECK(u == 5 || w < LIM[u], "a bigger unit is used when the number gets big");
    if (u > 0) CHECK(w > 0, "a unit is only used when there is at least one of it");
    sym_reach("printed");
}
HARNESS(h_repr) {
    switch (sym::pick("from", 6)) {
    case 0: repr_of<k_time_us>(0, 1000000000000LL); break;
    case 1: repr_of<k_time_ms>(1, 10000000000LL); break;
    case 2: repr_of<k_time_s>(2, 1000000000LL); break;
    case 3: repr_of<k_time_m>(3, 10000000LL); break;
    case 4: repr_of<k_time_h>(4, 1000000LL); break;
    default: repr_of<k_time_d>(5, 100000LL); break;
    }
}
