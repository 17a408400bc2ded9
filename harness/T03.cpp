//@ bounds every second of the years 2024, 1970, 2000, 1999 and 2100 (thorough: 15 years from 1904 to 2199 with every kind of century and leap year) for broken-down time; every valid date and time of day of those years as a __DATE__ text with a fixed time, any time of day as a __TIME__ text with a fixed date; numbers likewise
//@ assume the machine's time zone is UTC, dates are valid
//@ outside other time zones; the C library's own calendar routines (gmtime_r, mktime, strftime), which are replaced by an exact model and exercised for real by the replayed samples
//@ defs -DDEBUG_SPINE
//@ harness h_unix parts=4 pdepth=4
//@ harness h_text_date parts=4
//@ harness h_text_time
//@ harness h_numbers parts=4
//@ harness h_strf parts=2
#include "ref.h"
#include <ctime>
#include <climits>
#include "spine/core/exception.hpp"
#include "spine/structure/time/datetime.hpp"
struct Halt : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { sym_fail("a valid moment trips an assertion"); }
};
static void guard() { spn::core::set_machine_exception_handler(std::make_unique<Halt>()); }
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const int CUM[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
// days since 1970-01-01; y concrete
static int64_t days(int y, int m, int64_t d) {
    int64_t n = 0;
    for (int i = 1970; i < y; i++) n += leap(i) ? 366 : 365;
    for (int i = 1969; i >= y; i--) n -= leap(i) ? 366 : 365;
    return n + CUM[m - 1] + (m > 2 && leap(y)) + d - 1;
}
static int mlen(int y, int m) { return CUM[m] - CUM[m - 1] + (m == 2 && leap(y)); }
static const int YEARS[] = {2024, 1970, 2000, 1999, 2100, 1972, 2001, 2004, 2023, 2038, 2099, 1969, 1904, 2101, 2199};

static void check(const DateTime& dt, int y, int m, int64_t d, int64_t sod) {
    int64_t n = days(y, m, d), ux = n * 86400 + sod;
    CHECK(dt.getUnixTime() == ux, "the Unix time is that of the moment");
    CHECK(dt.getY2kTime() == ux - 946684800LL, "the Y2K time counts from the year 2000");
    CHECK(dt.getYear() == y && dt.getMonth() == m && dt.getDay() == d, "the date is that of the moment");
    CHECK(dt.getHour() * 3600 + dt.getMinute() * 60 + dt.getSecond() == sod && dt.getMinute() < 60 && dt.getSecond() < 60, "the time of day is that of the moment");
    CHECK(dt.getYearDay() == n - days(y, 1, 1), "the day of the year counts from the first of January");
    CHECK(dt.getWeekDay() == (n + 7 * 10000 + 4) % 7, "the day of the week follows the calendar");
}
static void pick_date(int& y, int& m, int64_t& d, int64_t& sod) {
    y = YEARS[sym::pick("year", QT(4, 11))];
    m = 1 + (int)sym::pick("month", 12);
    d = sym::range("day", 1, mlen(y, m));
    sod = sym::range("second of day", 0, 86399);
}
HARNESS(h_unix) {
    guard();
    int y = YEARS[sym::pick("year", QT(5, 15))], m = 1 + (int)sym::pick("month", 12);
    int64_t d = sym::range("day", 1, mlen(y, m)), sod = sym::range("second of day", 0, 86399);
    DateTime dt((time_t)(days(y, m, d) * 86400 + sod));
    check(dt, y, m, d, sod);
    sym_reach("unix");
}
HARNESS(h_numbers) {
    guard();
    int y, m;
    int64_t d, sod;
    pick_date(y, m, d, sod);
    int h = (int)sym::range("hour", 0, 23), mi = (int)sym::range("minute", 0, 59), s = (int)sym::range("second", 0, 59);
    sym_assume(h * 3600 + mi * 60 + s == sod);
    DateTime dt(y, m, (int)d, h, mi, s);
    check(dt, y, m, d, sod);
    sym_reach("numbers");
}
static const char* MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
HARNESS(h_text_date) {
    guard();
    int y = YEARS[sym::pick("year", QT(4, 11))], m = 1 + (int)sym::pick("month", 12);
    // __DATE__ pads the day with a space, others with a 0
    bool zero = sym::fork("zero");
    int tens = (int)sym::pick("day tens", 4);
    int64_t ones = sym::range("day ones", 0, 9), d = tens * 10 + ones;
    sym_assume(d >= 1 && d <= mlen(y, m));
    const char* n = MN[m - 1];
    char date[12] = {n[0], n[1], n[2], ' ', tens || zero ? (char)('0' + tens) : ' ', (char)('0' + ones), ' ', (char)('0' + y / 1000), (char)('0' + y / 100 % 10), (char)('0' + y / 10 % 10), (char)('0' + y % 10), 0};
    DateTime dt(date, "08:09:17");
    check(dt, y, m, d, 8 * 3600 + 9 * 60 + 17);
    sym_reach("text");
}
HARNESS(h_text_time) {
    guard();
    int64_t h1 = sym::pick("h", 3), h0 = sym::range("h", 0, 9), m1 = sym::range("m", 0, 5), m0 = sym::range("m", 0, 9), s1 = sym::range("s", 0, 5), s0 = sym::range("s", 0, 9);
    sym_assume(h1 * 10 + h0 < 24);
    char t[9] = {(char)('0' + h1), (char)('0' + h0), ':', (char)('0' + m1), (char)('0' + m0), ':', (char)('0' + s1), (char)('0' + s0), 0};
    DateTime dt("Feb 29 2024", t);
    check(dt, 2024, 2, 29, (h1 * 10 + h0) * 3600 + (m1 * 10 + m0) * 60 + s1 * 10 + s0);
    sym_reach("text");
}
// the moment as a text, in a buffer of any size: the whole text and its length, or 0; never a byte beyond the buffer
HARNESS(h_strf) {
    guard();
    static const char* DN[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    int y = YEARS[sym::pick("year", QT(2, 6))], m = 1 + (int)sym::pick("month", QT(3, 12));
    int d = sym::fork("last day") ? mlen(y, m) : 9;
    int64_t n = days(y, m, d), sod = sym::fork("late") ? 86399 : sym::fork("noon") ? 43200 : 7 * 3600 + 5 * 60 + 3;
    DateTime dt((time_t)(n * 86400 + sod));
    int wd = (int)((n + 70004) % 7), h = (int)(sod / 3600), mi = (int)(sod / 60 % 60), s = (int)(sod % 60);
    char want[64];
    int k = 0;
    auto put = [&](const char* t) { while (*t) want[k++] = *t++; };
    auto two = [&](int v) { want[k++] = (char)('0' + v / 10); want[k++] = (char)('0' + v % 10); };
    auto year = [&]() { want[k++] = (char)('0' + y / 1000); want[k++] = (char)('0' + y / 100 % 10); two(y % 100); };
    int fmt = (int)sym::pick("format", 3);
    if (fmt == 0) { put(DN[wd]); put(" "); put(MN[m - 1]); put(" "); two(d); put(" "); two(h); put(":"); two(mi); put(":"); two(s); put(" "); year(); }
    else if (fmt == 1) { year(); put("-"); two(m); put("-"); two(d); put("T"); two(h); put(":"); two(mi); put(":"); two(s); }
    else { int j = (int)(n - days(y, 1, 1)) + 1; put("day "); want[k++] = (char)('0' + j / 100); two(j % 100); put("%"); }
    const int SIZES[] = {0, 1, 4, k - 1, k, k + 1, k + 2, 63};
    int size = SIZES[sym::pick("size", 8)];
    char buf[64];
    for (char& c : buf) c = '#';
    size_t got = fmt == 0 ? dt.strf_DateTime(buf, size) : dt.strf_DateTime(buf, size, fmt == 1 ? "%Y-%m-%dT%H:%M:%S" : "day %j%%");
    CHECK(got == (size_t)(k < size ? k : 0), "formatting tells the length of the text, or 0 if it does not fit");
    if (k < size) {
        for (int i = 0; i < k; i++) CHECK(buf[i] == want[i], "the text is that of the moment");
        CHECK(buf[k] == 0, "the text is terminated");
    }
    for (int i = size; i < 64; i++) CHECK(buf[i] == '#', "nothing beyond the buffer is written");
    check(dt, y, m, d, sod);
    sym_reach("text");
}
