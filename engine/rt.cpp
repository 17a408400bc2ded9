// Runtime models linked into the bitcode in place of libc/libstdc++'s compiled parts.
// Everything that can stay real stays real (the header-only parts of libstdc++ are executed as they are).
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <typeinfo>
#include <variant>

#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
template class std::allocator<char>;
template class std::basic_string<char>;

extern "C" {
int rt_errno;
uint64_t sym_concretize(uint64_t);
int rt_host_fmt_double(char* buf, size_t n, const char* fmt, double d); // engine: host snprintf on concrete values
uint64_t rt_host_strtod(const char* buf, size_t n, size_t* used, int is_float);

/* ---- captured standard output */
static char rt_out[8192];
static size_t rt_out_len;
size_t rt_stdout_len() { return rt_out_len; }
const char* rt_stdout_data() { return rt_out; }
void rt_stdout_reset() { rt_out_len = 0; }
static void rt_put(char c) { if (rt_out_len < sizeof(rt_out)) rt_out[rt_out_len++] = c; }
}

size_t rt_strlen_(const char* s) { size_t n = 0; while (s[n]) n++; return n; }

extern "C" {
std::ostream& rt_ostream_cstr(std::ostream& o, const char* s) { if (s) for (size_t i = 0; s[i]; i++) rt_put(s[i]); return o; }
std::ostream& rt_ostream_insert(std::ostream& o, const char* s, long n) { for (long i = 0; i < n; i++) rt_put(s[i]); return o; }
std::ostream& rt_ostream_manip(std::ostream& o, std::ostream& (*)(std::ostream&)) { rt_put('\n'); return o; } // only endl is used
std::ostream& rt_ostream_string(std::ostream& o, const std::string& s) { for (size_t i = 0; i < s.size(); i++) rt_put(s.data()[i]); return o; }
std::ostream& rt_ostream_sv(std::ostream& o, std::string_view s) { for (size_t i = 0; i < s.size(); i++) rt_put(s.data()[i]); return o; }
std::ostream& rt_ostream_endl(std::ostream& o) { rt_put('\n'); return o; }
std::ostream& rt_ostream_flush(std::ostream& o) { return o; }
std::ostream& rt_ostream_put(std::ostream& o, char c) { rt_put(c); return o; }

/* ---- strings */
size_t rt_strlen(const char* s) { return rt_strlen_(s); }
int rt_strcmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int rt_strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* rt_strstr(const char* h, const char* n) {
    if (!*n) return (char*)h;
    for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; }
    return nullptr;
}
char* rt_strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* rt_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int rt_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int rt_isdigit(int c) { return c >= '0' && c <= '9'; }
int rt_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int rt_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int rt_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int rt_isalnum(int c) { return rt_isalpha(c) || rt_isdigit(c); }

static int digit(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long rt_parse(const char* s, const char** end, int base, bool isSigned) {
    const char* p = s;
    while (rt_isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    const char* first = p;
    unsigned long v = 0;
    bool over = false;
    while (digit(*p) < base) {
        unsigned long d = digit(*p++);
        if (v > (~0ul - d) / base) over = true;
        v = v * base + d;
    }
    if (end) *end = p == first ? s : p;
    if (!isSigned) { if (over) { rt_errno = ERANGE; return ~0ul; } return neg ? -v : v; }
    if (over || v > (1ul << 63) - (neg ? 0 : 1)) { rt_errno = ERANGE; return neg ? 1ul << 63 : ~(1ul << 63); }
    return neg ? -v : v;
}
long rt_strtol(const char* s, char** end, int base) { return (long)rt_parse(s, (const char**)end, base, true); }
unsigned long rt_strtoul(const char* s, char** end, int base) { return rt_parse(s, (const char**)end, base, false); }
int rt_atoi(const char* s) { return (int)rt_parse(s, nullptr, 10, true); }
// floating point text: the text is concretised byte by byte (one path per value), then converted by the host
static uint64_t rt_fp(const char* s, char** end, int is_float) {
    char buf[256];
    size_t n = 0;
    for (;;) {
        char c = (char)sym_concretize((unsigned char)s[n]);
        if (n + 1 >= sizeof(buf)) c = 0;
        buf[n] = c;
        if (!c) break;
        n++;
    }
    size_t used = 0;
    uint64_t r = rt_host_strtod(buf, n, &used, is_float);
    if (end) *end = (char*)s + used;
    return r;
}
float rt_strtof(const char* s, char** end) { uint32_t b = (uint32_t)rt_fp(s, end, 1); float f; memcpy(&f, &b, 4); return f; }
double rt_strtod(const char* s, char** end) { uint64_t b = rt_fp(s, end, 0); double f; memcpy(&f, &b, 8); return f; }

/* ---- formatted output */
struct Out { char* b; size_t cap, n; };
static void oc(Out& o, char c) { if (o.n + 1 < o.cap) o.b[o.n] = c; o.n++; }
static void onum(Out& o, unsigned long v, bool neg, unsigned base, bool up, int width, bool zero, bool left, int prec) {
    char t[72]; int n = 0;
    if (v == 0 && prec != 0) t[n++] = '0';
    while (v) { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; }
    while (n < prec && n < 70) t[n++] = '0';
    int len = n + (neg ? 1 : 0);
    if (!left && !(zero && prec < 0)) for (int i = len; i < width; i++) oc(o, ' ');
    if (neg) oc(o, '-');
    if (!left && zero && prec < 0) for (int i = len; i < width; i++) oc(o, '0');
    while (n) oc(o, t[--n]);
    if (left) for (int i = len; i < width; i++) oc(o, ' ');
}
int rt_vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
    Out o{buf, cap, 0};
    for (; *f; f++) {
        if (*f != '%') { oc(o, *f); continue; }
        const char* start = f;
        f++;
        bool left = false, zero = false, plus = false;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ' || *f == '#') ; else break; }
        int width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } }
        else while (rt_isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (rt_isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        int lng = 0, sh = 0;
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng++; else if (*f == 'h') sh++; else break; }
        switch (*f) {
        case 'd': case 'i': {
            long v = lng ? va_arg(ap, long) : va_arg(ap, int);
            if (sh == 1) v = (short)v; else if (sh > 1) v = (signed char)v;
            bool neg = v < 0;
            onum(o, neg ? 0ul - (unsigned long)v : v, neg, 10, false, width, zero, left, prec);
            break;
        }
        case 'u': case 'x': case 'X': case 'o': {
            unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (sh == 1) v = (unsigned short)v; else if (sh > 1) v = (unsigned char)v;
            onum(o, v, false, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, zero, left, prec);
            break;
        }
        case 'p': { unsigned long v = (unsigned long)va_arg(ap, void*); oc(o, '0'); oc(o, 'x'); onum(o, v, false, 16, false, 0, false, false, -1); break; }
        case 'c': { char c = (char)va_arg(ap, int); for (int i = 1; i < width && !left; i++) oc(o, ' '); oc(o, c); for (int i = 1; i < width && left; i++) oc(o, ' '); break; }
        case 's': {
            const char* s = va_arg(ap, const char*);
            if (!s) s = "(null)";
            int n = 0;
            while ((prec < 0 || n < prec) && s[n]) n++;
            if (!left) for (int i = n; i < width; i++) oc(o, ' ');
            for (int i = 0; i < n; i++) oc(o, s[i]);
            if (left) for (int i = n; i < width; i++) oc(o, ' ');
            break;
        }
        case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
            double d = va_arg(ap, double);
            uint64_t b; memcpy(&b, &d, 8); b = sym_concretize(b); memcpy(&d, &b, 8);
            char spec[24]; int k = 0;
            spec[k++] = '%';
            if (left) spec[k++] = '-';
            if (zero) spec[k++] = '0';
            if (plus) spec[k++] = '+';
            if (width) { if (width >= 100) spec[k++] = '0' + width / 100 % 10; if (width >= 10) spec[k++] = '0' + width / 10 % 10; spec[k++] = '0' + width % 10; }
            if (prec >= 0) { spec[k++] = '.'; if (prec >= 10) spec[k++] = '0' + prec / 10 % 10; spec[k++] = '0' + prec % 10; }
            spec[k++] = *f; spec[k] = 0;
            char t[400];
            int n = rt_host_fmt_double(t, sizeof(t), spec, d);
            for (int i = 0; i < n && i < (int)sizeof(t) - 1; i++) oc(o, t[i]);
            break;
        }
        case '%': oc(o, '%'); break;
        default: oc(o, *start); break;
        }
    }
    if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
    return (int)o.n;
}
int rt_snprintf(char* buf, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = rt_vsnprintf(buf, cap, f, ap); va_end(ap); return r; }

/* ---- sscanf: %[width]{d,i,u,x,s,c} */
int rt_sscanf(const char* in, const char* f, ...) {
    va_list ap; va_start(ap, f);
    int got = 0;
    const char* p = in;
    for (; *f; f++) {
        if (rt_isspace((unsigned char)*f)) { while (rt_isspace((unsigned char)*p)) p++; continue; }
        if (*f != '%') { if (*p != *f) goto done; p++; continue; }
        f++;
        int width = 0;
        while (rt_isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (!width) width = 1 << 20;
        while (*f == 'l' || *f == 'h' || *f == 'z') f++;
        if (*f == 's') {
            while (rt_isspace((unsigned char)*p)) p++;
            if (!*p) { if (!got) got = -1; goto done; }
            char* d = va_arg(ap, char*);
            int n = 0;
            while (n < width && *p && !rt_isspace((unsigned char)*p)) d[n++] = *p++;
            d[n] = 0; got++;
        } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') {
            while (rt_isspace((unsigned char)*p)) p++;
            if (!*p) { if (!got) got = -1; goto done; }
            int base = *f == 'i' ? 0 : *f == 'x' ? 16 : 10;
            bool neg = false;
            const char* q = p;
            if (width && (*q == '-' || *q == '+')) { neg = *q == '-'; q++; width--; }
            if ((base == 0 || base == 16) && width >= 2 && *q == '0' && (q[1] == 'x' || q[1] == 'X')) { q += 2; width -= 2; base = 16; }
            else if (base == 0) base = *q == '0' ? 8 : 10;
            long v = 0; int n = 0;
            while (width > 0 && digit(*q) < base) { v = v * base + digit(*q); q++; n++; width--; }
            if (!n) goto done;
            *va_arg(ap, int*) = (int)(neg ? -v : v);
            p = q; got++;
        } else if (*f == 'c') { if (!*p) { if (!got) got = -1; goto done; } *va_arg(ap, char*) = *p++; got++; }
        else goto done;
    }
done:
    va_end(ap);
    return got;
}

/* ---- calendar (UTC, proleptic Gregorian; H. Hinnant's civil algorithms) */
static long days_from_civil(long y, unsigned m, unsigned d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 719468;
}
struct tm* rt_gmtime_r(const time_t* t, struct tm* r) {
    long days = *t / 86400, rem = *t % 86400;
    if (rem < 0) { rem += 86400; days--; }
    r->tm_hour = rem / 3600; rem %= 3600; r->tm_min = rem / 60; r->tm_sec = rem % 60;
    int wd = (int)((4 + days) % 7); r->tm_wday = wd < 0 ? wd + 7 : wd;
    long z = days + 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long y = (long)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    unsigned d = doy - (153 * mp + 2) / 5 + 1;
    unsigned m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
    r->tm_mday = d; r->tm_mon = m - 1; r->tm_year = (int)(y - 1900);
    r->tm_yday = (int)(days - days_from_civil(y, 1, 1));
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
    return r;
}
static struct tm rt_tm;
struct tm* rt_gmtime(const time_t* t) { return rt_gmtime_r(t, &rt_tm); }
time_t rt_mktime(struct tm* t) { // TZ=UTC
    if (t->tm_isdst > 1000000) rt_errno = 0; // reads tm_isdst as libc does, so that an uninitialised value is noticed
    long mon = t->tm_mon, y = t->tm_year + 1900L;
    y += mon / 12; mon %= 12;
    if (mon < 0) { mon += 12; y--; }
    long days = days_from_civil(y, (unsigned)mon + 1, 1) + (t->tm_mday - 1L);
    time_t v = days * 86400 + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
    rt_gmtime_r(&v, t);
    return v;
}
size_t rt_strftime(char* b, size_t n, const char* f, const struct tm* t) {
    static const char mon[] = "JanFebMarAprMayJunJulAugSepOctNovDec", day[] = "SunMonTueWedThuFriSat";
    Out o{b, n, 0};
    for (; *f; f++) {
        if (*f != '%') { oc(o, *f); continue; }
        f++;
        switch (*f) {
        case 'a': for (int i = 0; i < 3; i++) oc(o, day[t->tm_wday * 3 + i]); break;
        case 'b': case 'h': for (int i = 0; i < 3; i++) oc(o, mon[t->tm_mon * 3 + i]); break;
        case 'd': onum(o, t->tm_mday, false, 10, false, 2, true, false, -1); break;
        case 'm': onum(o, t->tm_mon + 1, false, 10, false, 2, true, false, -1); break;
        case 'H': onum(o, t->tm_hour, false, 10, false, 2, true, false, -1); break;
        case 'M': onum(o, t->tm_min, false, 10, false, 2, true, false, -1); break;
        case 'S': onum(o, t->tm_sec, false, 10, false, 2, true, false, -1); break;
        case 'T': onum(o, t->tm_hour, false, 10, false, 2, true, false, -1); oc(o, ':'); onum(o, t->tm_min, false, 10, false, 2, true, false, -1); oc(o, ':'); onum(o, t->tm_sec, false, 10, false, 2, true, false, -1); break;
        case 'Y': onum(o, (long)t->tm_year + 1900, false, 10, false, 0, false, false, -1); break;
        case 'j': onum(o, t->tm_yday + 1, false, 10, false, 3, true, false, -1); break;
        case '%': oc(o, '%'); break;
        default: break;
        }
    }
    if (o.n + 1 > n) return 0;
    b[o.n] = 0;
    return o.n;
}
}

/* ---- libstdc++'s out-of-line exception machinery */
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string&) : _M_p("string") {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(s) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
} // namespace std
