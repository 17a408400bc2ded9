//@ bounds points of 2 and 3 dimensions of whole numbers (any within +-10^6) and of floats (any at all for adding, subtracting and comparing; six fixed factors and divisors otherwise); pairs of any whole numbers; lengths and normalising of eight fixed points in single and six in double precision; joining of up to four texts of up to 3 characters of any content
//@ assume divisors are not zero (whole numbers)
//@ outside lengths beyond 10^6; dot(), which multiplies per component as its test has it
//@ harness h_whole
//@ harness h_real parts=2
//@ harness h_length
//@ harness h_precise
//@ harness h_join
//@ harness h_tuple
#include "ref.h"
#include <cmath>
#include "spine/core/utils/concatenate.hpp"
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
using namespace spn::structure;

template<typename P> struct Dim;
template<typename T> struct Dim<XYZPoint<T>> { static const int n = 3; static XYZPoint<T> make(const T* v) { return {v[0], v[1], v[2]}; } static void get(const XYZPoint<T>& p, T* v) { v[0] = p.x; v[1] = p.y; v[2] = p.z; } };
template<typename T> struct Dim<XYPoint<T>> { static const int n = 2; static XYPoint<T> make(const T* v) { return {v[0], v[1]}; } static void get(const XYPoint<T>& p, T* v) { v[0] = p.x; v[1] = p.y; } };
static bool same(int a, int b) { return a == b; }
static bool same(float a, float b) { return sym::bits(a) == sym::bits(b) || (a != a && b != b); }
template<typename P, typename T, typename F> static bool each(const P& p, const T* a, const T* b, F&& f) {
    T v[3];
    Dim<P>::get(p, v);
    bool ok = true;
    for (int i = 0; i < Dim<P>::n; i++) ok &= same(v[i], f(a[i], b[i]));
    return ok;
}
template<typename P, typename T> static void exact(const T* a, const T* b) {
    const P p = Dim<P>::make(a), q = Dim<P>::make(b);
    CHECK(each(p, a, b, [](T x, T) { return x; }), "a point has the coordinates given");
    T zero[3] = {0, 0, 0};
    CHECK(each(P(), zero, zero, [](T x, T) { return x; }), "a point is at the origin at first");
    CHECK(each(p + q, a, b, [](T x, T y) { return x + y; }), "points are added by coordinate");
    CHECK(each(p - q, a, b, [](T x, T y) { return x - y; }), "points are subtracted by coordinate");
    P r = p, s = p;
    r.add(q);
    s.subtract(q);
    CHECK(each(r, a, b, [](T x, T y) { return x + y; }), "add agrees with +");
    CHECK(each(s, a, b, [](T x, T y) { return x - y; }), "subtract agrees with -");
    bool eq = true;
    for (int i = 0; i < Dim<P>::n; i++) eq &= a[i] == b[i];
    CHECK((p == q) == eq, "== compares every coordinate");
    CHECK((p != q) == !eq, "!= is its opposite");
    CHECK(each(p, a, b, [](T x, T) { return x; }) && each(q, a, b, [](T, T y) { return y; }), "operands stay");
    r = s = p;
    r.add(r);
    s.subtract(s);
    CHECK(each(r, a, b, [](T x, T) { return x + x; }) && each(s, a, b, [](T x, T) { return x - x; }), "a point can be added to and subtracted from itself");
}
template<typename P, typename T> static void scaled(const T* a, const T* k) {
    P p = Dim<P>::make(a), q = Dim<P>::make(k);
    CHECK(each(p * q, a, k, [](T x, T y) { return x * y; }), "points are multiplied by coordinate");
    CHECK(each(p / q, a, k, [](T x, T y) { return x / y; }), "points are divided by coordinate");
    CHECK(each(p.dot(q), a, k, [](T x, T y) { return x * y; }), "dot multiplies by coordinate");
    T s = k[0];
    p.scalar_multiplication(s);
    CHECK(each(p, a, k, [s](T x, T) { return x * s; }), "a factor scales every coordinate");
}
HARNESS(h_whole) {
    int a[3], b[3], k[3];
    static const int ks[6] = {1, 2, -3, 7, -10, 1000};
    for (int i = 0; i < 3; i++) { a[i] = (int)sym::range("a", -1000000, 1000000); b[i] = (int)sym::range("b", -1000000, 1000000); }
    int first = (int)sym::pick("k", 6);
    for (int i = 0; i < 3; i++) k[i] = ks[(first + i) % 6];
    bool three = sym::fork("three");
    if (three) { exact<XYZPoint<int>>(a, b); scaled<XYZPoint<int>>(a, k); }
    else { exact<XYPoint<int>>(a, b); scaled<XYPoint<int>>(a, k); }
    auto rem = [](int x, int y) { return x % y; };
    CHECK(three ? each(XYZPoint<int>(a[0], a[1], a[2]) % XYZPoint<int>(k[0], k[1], k[2]), a, k, rem) : each(XYPoint<int>(a[0], a[1]) % XYPoint<int>(k[0], k[1]), a, k, rem), "remainders are taken by coordinate");
    sym_reach("end");
}
HARNESS(h_real) {
    float a[3], b[3], k[3];
    static const float ks[6] = {1, 0.5f, -3, 7, -0.1f, 1000};
    for (int i = 0; i < 3; i++) { a[i] = sym::f32("a"); b[i] = sym::f32("b"); }
    int first = (int)sym::pick("k", 6);
    for (int i = 0; i < 3; i++) k[i] = ks[(first + i) % 6];
    if (sym::fork("three")) { exact<XYZPoint<float>>(a, b); scaled<XYZPoint<float>>(a, k); }
    else { exact<XYPoint<float>>(a, b); scaled<XYPoint<float>>(a, k); }
    sym_reach("end");
}
HARNESS(h_length) {
    static const float p[8][4] = {{3, 4, 0, 5}, {-3, 4, 0, 5}, {2, 3, 6, 7}, {1, -4, 8, 9}, {0, 0, -2.5f, 2.5f}, {1000, 0, 0, 1000}, {0.6f, 0.8f, 0, 1}, {-6, 6, -7, 11}};
    int i = (int)sym::pick("point", 8);
    auto near = [](float a, float b) { float d = a - b, t = 1e-5f * (b < 0 ? -b : b) + 1e-6f; return d <= t && d >= -t; };
    XYZPoint<float> q(p[i][0], p[i][1], p[i][2]);
    CHECK(near(q.mag(), p[i][3]), "the length is the distance from the origin");
    q.normalize();
    CHECK(near(q.mag(), 1) && near(q.x * p[i][3], p[i][0]) && near(q.y * p[i][3], p[i][1]) && near(q.z * p[i][3], p[i][2]), "normalising keeps the direction and makes the length one");
    if (p[i][2] == 0) {
        XYPoint<float> r(p[i][0], p[i][1]);
        CHECK(near(r.mag(), p[i][3]), "the length is the distance from the origin");
        r.normalize();
        CHECK(near(r.mag(), 1) && near(r.x * p[i][3], p[i][0]) && near(r.y * p[i][3], p[i][1]), "normalising keeps the direction and makes the length one");
    }
    sym_reach("end");
}
HARNESS(h_precise) {
    static const double p[6][4] = {{1.0 / 3, 1.0 / 7, 0, 0.3626558621839956}, {-0.1, 0.7, 0.2, 0.7348469228349535}, {1e-9, 2e-9, 2e-9, 3e-9}, {123456.789, 0, -0.001, 123456.789}, {1e5 + 1e-7, 0, 0, 1e5 + 1e-7}, {3e8, 4e8, 0, 5e8}};
    int i = (int)sym::pick("point", 6);
    auto near = [](double a, double b) { double d = a - b, t = 1e-14 * (b < 0 ? -b : b); return d <= t && d >= -t; };
    auto unit = [&](double a, double b) { double d = a * p[i][3] - b; d = d < 0 ? -d : d; return d <= 1e-13 * p[i][3]; };
    XYZPoint<double> q(p[i][0], p[i][1], p[i][2]);
    CHECK(near(q.mag(), p[i][3]), "the length is as precise as the coordinates");
    q.normalize();
    CHECK(near(q.mag(), 1) && unit(q.x, p[i][0]) && unit(q.y, p[i][1]) && unit(q.z, p[i][2]), "normalising is as precise as the coordinates");
    if (p[i][2] == 0) {
        XYPoint<double> r(p[i][0], p[i][1]);
        CHECK(near(r.mag(), p[i][3]), "the length is as precise as the coordinates");
        r.normalize();
        CHECK(near(r.mag(), 1) && unit(r.x, p[i][0]) && unit(r.y, p[i][1]), "normalising is as precise as the coordinates");
    }
    sym_reach("end");
}
HARNESS(h_join) {
    using namespace spn::core::utils;
    char a[2], b[3], c[4], d[1] = {0};
    for (int i = 0; i < 3; i++) { if (i < 1) a[i] = (char)sym::u8("a"); if (i < 2) b[i] = (char)sym::u8("b"); c[i] = (char)sym::u8("c"); }
    a[1] = b[2] = c[3] = 0;
    auto one = concat(c);
    CHECK(one.size() == 4 && one[0] == c[0] && one[1] == c[1] && one[2] == c[2] && one[3] == 0, "joining one text is that text");
    auto two = concat(a, b);
    CHECK(two.size() == 4 && two[0] == a[0] && two[1] == b[0] && two[2] == b[1] && two[3] == 0, "joined texts follow each other");
    auto four = concat(b, d, a, c);
    CHECK(four.size() == 7 && four[0] == b[0] && four[1] == b[1] && four[2] == a[0] && four[3] == c[0] && four[4] == c[1] && four[5] == c[2] && four[6] == 0, "joined texts follow each other");
    CHECK(concat().size() == 1 && concat()[0] == 0, "joining nothing is empty");
    sym_reach("end");
}
HARNESS(h_tuple) {
    int a = sym::i32("a");
    uint8_t b = sym::u8("b");
    Tuple<int, uint8_t> t(a, b);
    Tuple<uint8_t, Seq<int, 2>> u(b, Seq<int, 2>());
    CHECK(t.first() == a && t.second() == b, "a tuple holds what it was given");
    CHECK(u.first() == b && u.second().n == 0, "a tuple holds what it was given");
    Tuple<int, uint8_t> c(t);
    CHECK(c.first() == a && c.second() == b && &c.first() != &t.first(), "a copy holds the same");
    sym_reach("end");
}
