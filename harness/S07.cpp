//@ bounds strings of up to 4 (thorough 5) arbitrary bytes, needles and delimiter sets of up to 2 (thorough 3) arbitrary bytes; number texts of up to 3 (thorough 4) characters out of "0 1 7 . - e space", inside a longer buffer, and of 12..40 characters (zeros, digits and an exponent); also texts of 300 bytes
//@ assume views point at valid memory
//@ outside strings of other lengths; number text is enumerated over the stated alphabet (its conversion itself is libc's)
//@ harness h_views parts=2
//@ harness h_static_string parts=2
//@ harness h_to_float parts=2
//@ harness h_number_long
//@ harness h_text_wide steps=20000000
#include "ref.h"
#include <string>
#include "spine/core/utils/string.hpp"
#include "spine/structure/static_string.hpp"
using spn::structure::StaticString;
namespace u = spn::core::utils;
static const int N = QT(4, 5), M = QT(2, 3);

struct Txt {
    char* b; int n; // heap copy of exactly n bytes: reading past it is noticed
    Txt(const char* name, int max) { n = sym::pick("len", max + 1); b = new char[n]; for (int i = 0; i < n; i++) b[i] = (char)sym::u8(name); }
    ~Txt() { delete[] b; }
    std::string_view v() const { return {b, (size_t)n}; }
};
static bool in(char c, const Txt& d) { for (int i = 0; i < d.n; i++) if (d.b[i] == c) return true; return false; }

HARNESS(h_views) {
    Txt s("s", N), d("d", M);
    int l = 0;
    while (l < s.n && in(s.b[l], d)) l++;
    int e = s.n;
    while (e > 0 && in(s.b[e - 1], d)) e--;
    switch (sym::pick("fn", 5)) {
    case 0: { auto r = u::lstrip(s.v(), d.v()); CHECK(r.size() == (size_t)(s.n - l) && (r.empty() || r.data() == s.b + l), "lstrip removes exactly the leading delimiters"); sym_reach("lstrip"); break; }
    case 1: { auto r = u::rstrip(s.v(), d.v()); CHECK(r.size() == (size_t)e && (r.empty() || r.data() == s.b), "rstrip removes exactly the trailing delimiters"); sym_reach("rstrip"); break; }
    case 2: { bool want = d.n <= s.n; for (int i = 0; want && i < d.n; i++) want = s.b[i] == d.b[i]; CHECK(u::starts_with(s.v(), d.v()) == want, "starts_with tells whether the text begins with the needle"); break; }
    case 3: { bool want = d.n <= s.n; for (int i = 0; want && i < d.n; i++) want = s.b[s.n - d.n + i] == d.b[i]; CHECK(u::ends_with(s.v(), d.v()) == want, "ends_with tells whether the text ends with the needle"); break; }
    case 4: { size_t want = std::string::npos; for (int i = s.n - 1; i >= 0; i--) if (in(s.b[i], d)) want = i; CHECK(u::find_first_of(s.v(), d.v()) == want, "find_first_of finds the first delimiter"); break; }
    }
}

HARNESS(h_static_string) {
    Txt s("s", N), d("d", M);
    StaticString t(sym::pick("buffer", 3) * 10);
    size_t cap = t.capacity();
    CHECK(t.size() == cap, "a fresh string spans its capacity");
    memcpy(t.data(s.n), s.b, s.n);
    if (s.n == 0) t.set_size(0);
    const char* where = t.c_str();
    CHECK(t.size() == (size_t)s.n && t.view() == s.v(), "the string holds what was written into it");
    int l = 0;
    while (l < s.n && in(s.b[l], d)) l++;
    int e = s.n;
    while (e > 0 && in(s.b[e - 1], d)) e--;
    switch (sym::pick("fn", 6)) {
    case 0: t.lstrip(d.v()); CHECK(t.view() == s.v().substr(l), "lstrip removes exactly the leading delimiters"); sym_reach("stripped"); break;
    case 1: t.rstrip(d.v()); CHECK(t.view() == s.v().substr(0, e), "rstrip removes exactly the trailing delimiters"); break;
    case 2: { t.lstrip(d.v()).rstrip(d.v()); CHECK(t.view() == (l < e ? s.v().substr(l, e - l) : std::string_view()), "stripping both ends keeps the middle"); break; }
    case 3: { bool want = d.n <= s.n; for (int i = 0; want && i < d.n; i++) want = s.b[i] == d.b[i]; CHECK(t.starts_with(d.v()) == want, "starts_with tells whether the text begins with the needle"); break; }
    case 4: { bool want = d.n <= s.n; for (int i = 0; want && i < d.n; i++) want = s.b[s.n - d.n + i] == d.b[i]; CHECK(t.ends_with(d.v()) == want, "ends_with tells whether the text ends with the needle"); break; }
    case 5: { size_t z = sym::pick("size", 40); t.set_size(z); LEGAL(z <= cap); CHECK(t.size() == (z < cap ? z : cap), "the size never exceeds the capacity"); for (size_t i = 0; i < t.size() && i < (size_t)s.n; i++) CHECK(t.view()[i] == s.b[i], "resizing keeps the contents"); break; }
    }
    CHECK(t.capacity() == cap && t.c_str() == where, "the storage is never reallocated");
    CHECK(t.c_str()[t.size()] == 0, "the text is terminated");
}

HARNESS(h_to_float) {
    static const char alpha[] = "017.-e ";
    int n = 1 + sym::pick("n", QT(3, 4));
    char* b = new char[n + 2];
    for (int i = 0; i < n + 2; i++) b[i] = alpha[sym::pick("c", i < n ? 7 : 2)]; // view is followed by more text
    char z[16];
    for (int i = 0; i < n; i++) z[i] = b[i];
    z[n] = 0;
    float got = u::to_float(std::string_view(b, n));
    char* end;
    float want = strtof(z, &end);
    if (end == z || *end) want = 0.0f;
    else sym_reach("a number");
    CHECK(sym::bits(got) == sym::bits(want), "the number is read from the view alone, and text that is not a number reads as zero");
    // exactly-sized buffer: nothing past the view is touched
    char* x = new char[n];
    for (int i = 0; i < n; i++) x[i] = b[i];
    CHECK(sym::bits(u::to_float(std::string_view(x, n))) == sym::bits(want), "the number does not depend on what follows the view");
    delete[] x;
    delete[] b;
}

HARNESS(h_number_long) { // numbers with more digits than a float holds, the last of them counting
    int zeros = (int)sym::pick("zeros", 4) * 8 + 1, point = (int)sym::pick("point", 3), tail = (int)sym::pick("tail", 4);
    char b[96], z[96];
    int n = 0;
    b[n++] = point == 0 ? '-' : '0';
    for (int i = 0; i < zeros; i++) b[n++] = '0';
    if (point == 1) { b[n++] = '.'; for (int i = 0; i < zeros; i++) b[n++] = '0'; }
    b[n++] = "12"[sym::pick("d", 2)];
    for (int i = 0; i < 8; i++) b[n++] = (char)('0' + (i * 3 + 1) % 10);
    if (tail == 1) { b[n++] = 'e'; b[n++] = '+'; b[n++] = '0'; b[n++] = '2'; }
    if (tail == 2) { b[n++] = 'e'; b[n++] = '-'; b[n++] = '1'; b[n++] = '1'; }
    if (tail == 3) b[n++] = 'x';
    memcpy(z, b, n);
    z[n] = 0;
    memset(b + n, '5', 3); // and what follows the view
    char* end;
    float want = strtof(z, &end), got = u::to_float(std::string_view(b, n));
    if (*end) want = 0.0f;
    CHECK((tail == 3) == (want == 0.0f), "a text that ends in a letter is no number");
    CHECK(sym::bits(got) == sym::bits(want), "the number is read from the view alone, and text that is not a number reads as zero");
    sym_reach("a number");
}
HARNESS(h_text_wide) { // texts longer than what a byte counts
    int n = 300, l = sym::fork("many") ? 255 + (int)sym::pick("l", 3) : (int)sym::pick("l", 3), e = sym::fork("few") ? 2 : 20;
    char d = (char)sym::u8("d"), c = (char)sym::u8("c");
    sym_assume(c != d);
    char* b = new char[n];
    for (int i = 0; i < n; i++) b[i] = i < l || i >= n - e ? d : c;
    std::string_view s(b, n), ds(&d, 1), cs(&c, 1);
    auto r = u::lstrip(s, ds);
    CHECK(r.data() == b + l && r.size() == (size_t)(n - l), "lstrip removes exactly the leading delimiters");
    r = u::rstrip(s, ds);
    CHECK(r.data() == b && r.size() == (size_t)(n - e), "rstrip removes exactly the trailing delimiters");
    CHECK(u::find_first_of(s, cs) == (size_t)l, "find_first_of finds the first delimiter");
    CHECK(u::starts_with(s, s.substr(0, 280)) && u::ends_with(s, s.substr(20)), "starts_with tells whether the text begins with the needle");
    std::string_view other(b + 1, n - 1);
    CHECK(u::starts_with(s, other) == (l == 0 && e == 0), "starts_with tells whether the text begins with the needle");
    StaticString t(n);
    CHECK(t.capacity() >= (size_t)n && t.size() == t.capacity(), "a fresh string spans its capacity");
    memcpy(t.data(n), b, n);
    CHECK(t.size() == (size_t)n && t.view() == s, "the string holds what was written into it");
    t.set_size(258 + l % 2);
    CHECK(t.size() == (size_t)(258 + l % 2) && t.c_str()[t.size()] == 0, "the size never exceeds the capacity");
    t.set_size(n);
    memcpy(t.data(n), b, n);
    t.lstrip(ds).rstrip(ds);
    CHECK(t.view() == s.substr(l, n - l - e) && t.c_str()[t.size()] == 0, "stripping both ends keeps the middle");
    sym_reach("wide");
    delete[] b;
}
