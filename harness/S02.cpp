//@ bounds capacity 1..4 (thorough: 1..6); every reachable head offset and fill level, reached through the public interface; element values fully symbolic (16 bit), or reference counted objects whose release is tracked; 3 arbitrary operations after that state, then a full read-back through every accessor; also one operation on vectors of capacity 300 holding 254..300 elements, and on one of 65536
//@ assume popping and removing are used within their precondition (not empty / index below size)
//@ outside other capacities, element types for which all-zero bytes are not a valid empty value, operations with a violated precondition other than appending, prepending or inserting into a full vector
//@ harness h_vector_ops parts=6 tparts=8 pdepth=4
//@ harness h_vector_iter parts=1
//@ harness h_vector_lists
//@ harness h_vector_objects parts=8 pdepth=4
//@ harness h_vector_wide parts=4 steps=40000000
//@ harness h_vector_huge parts=3 steps=400000000
#include "ref.h"
#include <memory>
#include "spine/structure/vector.hpp"
using spn::structure::Vector;
typedef uint16_t T;
static const int MAXCAP = QT(4, 6);
typedef Seq<T, 8> Ref;

static void same(Vector<T>& v, const Ref& r, int cap) {
    CHECK(v.size() == (size_t)r.n, "size() is the number of elements held");
    CHECK(v.empty() == (r.n == 0), "empty() tells whether there are elements");
    CHECK(v.full() == (r.n == cap), "full() tells whether the capacity is used up");
    CHECK(v.max_size() == (size_t)cap, "capacity never changes");
    const Vector<T>& cv = v;
    for (int i = 0; i < r.n; i++) {
        CHECK(v[i] == r.v[i], "indexing yields the element at that position");
        CHECK(cv[i] == r.v[i], "const indexing yields the element at that position");
    }
    if (r.n) {
        CHECK(v.peek_front() == r.v[0], "peek_front() is the first element");
        CHECK(v.peek_back() == r.v[r.n - 1], "peek_back() is the last element");
        CHECK(v.back() == r.v[r.n - 1], "back() is the last element");
        CHECK(v.front() == r.v[0], "front() is the first element");
    }
    int i = 0;
    for (auto x : v) {
        CHECK(i < r.n && x == r.v[i], "iteration visits the elements in order");
        i++;
    }
    CHECK(i == r.n, "iteration visits every element");
}

// any reachable (head, size) state
static void reach(Vector<T>& v, Ref& r, int cap) {
    int head = sym::pick("head", cap + 1);
    int n = sym::pick("count", cap + 1);
    sym_assume(head + n <= cap);
    if (n == 0) sym_assume(head == 0);
    for (int i = 0; i < head; i++) v.push_back(0xdead);
    for (int i = 0; i < n; i++) {
        T x = sym::u16("init");
        v.push_back(x);
        r.push_back(x);
    }
    for (int i = 0; i < head; i++) { T d = v.pop_front(); (void)d; }
}

HARNESS(h_vector_ops) {
    int cap = 1 + sym::pick("cap", MAXCAP);
    Vector<T> v(cap);
    Ref r;
    reach(v, r, cap);
    for (int k = 0; k < QT(3, 3); k++) {
        T x = sym::u16("x");
        bool legal = true;
        switch (sym::pick("op", 10)) {
        case 0: v.push_back(x); if (r.n < cap) r.push_back(x); else { legal = false; sym_reach("append to a full vector"); } break;
        case 1: v.emplace_back(std::move(x)); if (r.n < cap) r.push_back(x); else legal = false; break;
        case 2: v.push_front(x); if (r.n < cap) r.insert(0, x); else { legal = false; sym_reach("prepend to a full vector"); } break;
        case 3: v.emplace_front(std::move(x)); if (r.n < cap) r.insert(0, x); else legal = false; break;
        case 4: { sym_assume(r.n > 0); T got = v.pop_back(); CHECK(got == r.remove(r.n - 1), "pop_back() yields the last element"); sym_reach("pop_back"); break; }
        case 5: { sym_assume(r.n > 0); T got = v.pop_front(); CHECK(got == r.remove(0), "pop_front() yields the first element"); break; }
        case 6: { int at = sym::pick("at", r.n + 2); v.insert(at, x); if (r.n < cap) r.insert(at > r.n ? r.n : at, x); else legal = false; break; }
        case 7: { sym_assume(r.n > 0); int at = sym::pick("at", r.n); T got = v.remove(at); CHECK(got == r.remove(at), "remove() yields the element at that position"); sym_reach("remove"); break; }
        case 8: { sym_assume(r.n > 0); int at = sym::pick("at", r.n); v[at] = x; r.v[at] = x; break; }
        case 9: if (sym::fork("clear")) { v.clear(); r.n = 0; } else { v.fill(x); r.n = cap; for (int i = 0; i < cap; i++) r.v[i] = x; } break;
        }
        LEGAL(legal);
        same(v, r, cap);
    }
}

HARNESS(h_vector_iter) {
    int cap = 1 + sym::pick("cap", MAXCAP);
    Vector<T> v(cap);
    Ref r;
    reach(v, r, cap);
    const Vector<T>& cv = v;
    int i = r.n;
    for (auto it = v.rbegin(); it != v.rend(); ++it) {
        i--;
        CHECK(i >= 0 && *it == r.v[i], "reverse iteration visits the elements backwards");
        if (i < 0) break;
    }
    CHECK(i == 0, "reverse iteration visits every element");
    i = r.n;
    for (auto it = cv.rbegin(); it != cv.rend(); ++it) {
        i--;
        CHECK(i >= 0 && *it == r.v[i], "const reverse iteration visits the elements backwards");
        if (i < 0) break;
    }
    CHECK(i == 0, "const reverse iteration visits every element");
    i = 0;
    for (auto it = cv.begin(); it != cv.end(); ++it) { CHECK(i < r.n && *it == r.v[i], "const iteration visits the elements in order"); i++; }
    CHECK(i == r.n, "const iteration visits every element");
    i = 0;
    for (auto it = v.cbegin(); it != v.cend(); ++it) { CHECK(i < r.n && *it == r.v[i], "const iteration visits the elements in order"); if (++i > r.n) break; }
    CHECK(i == r.n, "const iteration visits every element");
    i = r.n;
    for (auto it = v.crbegin(); it != v.crend(); ++it) {
        i--;
        CHECK(i >= 0 && *it == r.v[i], "const reverse iteration visits the elements backwards");
        if (i < 0) break;
    }
    CHECK(i == 0, "const reverse iteration visits every element");
    if (r.n >= 2) {
        auto it = v.begin();
        auto old = it++;
        CHECK(*old == r.v[0] && *it == r.v[1], "postfix increment yields the position before advancing");
        auto old2 = it--;
        CHECK(*old2 == r.v[1] && *it == r.v[0], "postfix decrement yields the position before retreating");
        auto rt = v.rbegin();
        auto rold = rt++;
        CHECK(*rold == r.v[r.n - 1] && *rt == r.v[r.n - 2], "reverse postfix increment yields the position before advancing");
        auto rold2 = rt--;
        CHECK(*rold2 == r.v[r.n - 2] && *rt == r.v[r.n - 1], "reverse postfix decrement yields the position before retreating");
        sym_reach("postfix iteration");
    }
    if (r.n) { // writing through an iterator reaches the element
        T x = sym::u16("x");
        *v.begin() = x;
        CHECK(v[0] == x, "writing through an iterator changes the element");
    }
}

HARNESS(h_vector_lists) {
    T a = sym::u16("a"), b = sym::u16("b"), c = sym::u16("c");
    uint64_t heap = sym_live_heap();
    {
        Vector<T> v = {a, b, c};
        Ref r; r.push_back(a); r.push_back(b); r.push_back(c);
        same(v, r, 3);
        if (sym::fork("popfirst")) { T d = v.pop_front(); CHECK(d == a, "pop_front() yields the first element"); }
        v = {c, a};
        Ref q; q.push_back(c); q.push_back(a);
        same(v, q, 2);
        sym_reach("list assignment");
        T store[4] = {a, b, c, a};
        int used = sym::pick("used", 5);
        Vector<T> e(store, used);
        Ref s; for (int i = 0; i < used; i++) s.push_back(store[i]);
        same(e, s, 4);
        e.push_back(b); if (s.n < 4) s.push_back(b); else LEGAL(false);
        same(e, s, 4);
        // swapping two vectors exchanges their contents
        Vector<T> o(2);
        o.push_back(b);
        Ref t; t.push_back(b);
        v.swap(o);
        same(v, t, 2);
        same(o, q, 2);
    }
    CHECK(sym_live_heap() == heap, "all memory is given back");
}

// elements that own something: nothing is lost, duplicated or released twice
static int g_live;
struct Obj {
    uint16_t v;
    Obj(uint16_t v) : v(v) { g_live++; }
    ~Obj() { g_live--; }
};
typedef std::shared_ptr<Obj> P;
HARNESS(h_vector_objects) {
    g_live = 0;
    int cap = 1 + sym::pick("cap", MAXCAP - 1);
    uint64_t heap = sym_live_heap();
    {
        Vector<P> v(cap);
        Ref r;
        int head = sym::pick("head", cap + 1);
        int n = sym::pick("count", cap + 1);
        sym_assume(head + n <= cap && (n != 0 || head == 0));
        for (int i = 0; i < head; i++) v.push_back(std::make_shared<Obj>(0xdead));
        for (int i = 0; i < n; i++) { T x = sym::u16("init"); v.push_back(std::make_shared<Obj>(x)); r.push_back(x); }
        for (int i = 0; i < head; i++) { P d = v.pop_front(); (void)d; }
        for (int k = 0; k < QT(3, 3); k++) {
            CHECK(g_live == r.n, "exactly the elements held are alive");
            switch (sym::pick("op", 7)) {
            case 0: { T x = sym::u16("x"); v.push_back(std::make_shared<Obj>(x)); if (r.n < cap) r.push_back(x); else LEGAL(false); break; }
            case 1: { T x = sym::u16("x"); v.push_front(std::make_shared<Obj>(x)); if (r.n < cap) r.insert(0, x); else LEGAL(false); break; }
            case 2: { sym_assume(r.n > 0); P got = v.pop_back(); CHECK(got->v == r.remove(r.n - 1), "pop_back() yields the last element"); break; }
            case 3: { sym_assume(r.n > 0); P got = v.pop_front(); CHECK(got->v == r.remove(0), "pop_front() yields the first element"); break; }
            case 4: { int at = sym::pick("at", r.n + 1); T x = sym::u16("x"); v.insert(at, std::make_shared<Obj>(x)); if (r.n < cap) r.insert(at, x); else LEGAL(false); break; }
            case 5: { sym_assume(r.n > 0); int at = sym::pick("at", r.n); P got = v.remove(at); CHECK(got->v == r.remove(at), "remove() yields the element at that position"); sym_reach("remove an object"); break; }
            case 6: v.clear(); r.n = 0; break;
            }
            CHECK(v.size() == (size_t)r.n, "size() is the number of elements held");
            for (int i = 0; i < r.n; i++) CHECK(v[i] && v[i]->v == r.v[i] && v[i].use_count() == 1, "indexing yields the element at that position, held once");
        }
        if (sym::fork("move")) {
            Vector<P> w(std::move(v));
            CHECK(w.size() == (size_t)r.n && g_live == r.n, "moving a vector keeps its elements");
            for (int i = 0; i < r.n; i++) CHECK(w[i]->v == r.v[i], "moving a vector keeps its elements");
            CHECK(v.empty() && v.size() == 0, "a vector that was moved from is empty");
            for (auto& x : v) { (void)x; CHECK(false, "a vector that was moved from is empty"); break; }
            if (sym::fork("back")) {
                Vector<P> o(2);
                o.push_back(std::make_shared<Obj>(1));
                o = std::move(w);
                CHECK(o.size() == (size_t)r.n && g_live == r.n, "assigning a vector by moving keeps its elements, and releases the previous ones");
                for (int i = 0; i < r.n; i++) CHECK(o[i]->v == r.v[i], "assigning a vector by moving keeps its elements, and releases the previous ones");
                CHECK(w.empty(), "a vector that was moved from is empty");
                sym_reach("assign by moving");
            }
        }
    }
    CHECK(g_live == 0, "a vector releases its elements");
    CHECK(sym_live_heap() == heap, "a vector releases its storage");
}

HARNESS(h_vector_wide) { // capacities and fill levels beyond what a byte counts
    static const int CAP = 300;
    static Seq<T, 304> r;
    r.n = 0;
    Vector<T> v(CAP);
    int head = sym::fork("head") ? 20 : 0;
    int n = 254 + (int)sym::pick("count", 4);
    if (sym::fork("full")) { head = 0; n = CAP; }
    for (int i = 0; i < head; i++) v.push_back(0xdead);
    for (int i = 0; i < n; i++) {
        T x = i < 250 || i > 260 ? (T)(i * 7) : sym::u16("init");
        v.push_back(x);
        r.push_back(x);
    }
    for (int i = 0; i < head; i++) v.pop_front();
    T x = sym::u16("x");
    static const int ats[7] = {0, 1, 253, 254, 255, 256, 257};
    bool legal = true;
    switch (sym::pick("op", 9)) {
    case 0: v.push_back(x); if (r.n < CAP) r.push_back(x); else legal = false; break;
    case 1: v.emplace_front(std::move(x)); if (r.n < CAP) r.insert(0, x); else legal = false; break;
    case 2: { T got = v.pop_back(); CHECK(got == r.remove(r.n - 1), "pop_back() yields the last element"); break; }
    case 3: { T got = v.pop_front(); CHECK(got == r.remove(0), "pop_front() yields the first element"); break; }
    case 4: { int at = ats[sym::pick("at", 7)]; sym_assume(at <= r.n); v.insert(at, x); if (r.n < CAP) r.insert(at, x); else legal = false; sym_reach("insert"); break; }
    case 5: { int at = ats[sym::pick("at", 7)]; sym_assume(at < r.n); T got = v.remove(at); CHECK(got == r.remove(at), "remove() yields the element at that position"); break; }
    case 6: { int at = ats[sym::pick("at", 7)]; sym_assume(at < r.n); v[at] = x; r.v[at] = x; break; }
    case 7: v.fill(x); r.n = CAP; for (int i = 0; i < CAP; i++) r.v[i] = x; break;
    case 8: { Vector<T> w(std::move(v)); CHECK(v.empty() && w.size() == (size_t)r.n, "moving a vector keeps its elements"); v = std::move(w); break; }
    }
    LEGAL(legal);
    CHECK(v.size() == (size_t)r.n && v.full() == (r.n == CAP) && v.max_size() == (size_t)CAP && !v.empty(), "size() is the number of elements held");
    for (int i = 0; i < r.n; i++) CHECK(v[i] == r.v[i], "indexing yields the element at that position");
    CHECK(v.back() == r.v[r.n - 1] && v.front() == r.v[0], "front() and back() are the outermost elements");
    int i = 0;
    for (auto e : v) { CHECK(i < r.n && e == r.v[i], "iteration visits the elements in order"); i++; }
    CHECK(i == r.n, "iteration visits every element");
    for (auto it = v.rbegin(); it != v.rend(); ++it) { i--; CHECK(i >= 0 && *it == r.v[i], "reverse iteration visits the elements backwards"); if (i < 0) break; }
    CHECK(i == 0, "reverse iteration visits every element");
    for (int k = 0; k < r.n; k++) { T got = v.pop_front(); CHECK(got == r.v[k], "pop_front() yields the first element"); }
    CHECK(v.empty(), "a vector that gave up all its elements is empty");
}

HARNESS(h_vector_huge) { // fill levels beyond what a half word counts
    const int CAP = 65540;
    Vector<T> v(CAP);
    int n = 65535 + (int)sym::pick("count", 3), head = sym::fork("head") ? 3 : 0;
    for (int i = 0; i < n + head; i++) v.push_back((T)(i - head) ^ 0x5555);
    for (int i = 0; i < head; i++) v.pop_front();
    T x = sym::u16("x");
    v.push_back(x);
    CHECK(v.size() == (size_t)n + 1 && v.max_size() == (size_t)CAP && v.full() == (n + 1 == CAP) && !v.empty(), "size() is the number of elements held");
    CHECK(v.back() == x && v[n] == x && v[n - 1] == ((T)(n - 1) ^ 0x5555) && v[0] == 0x5555, "indexing yields the element at that position");
    v[n - 1] = x;
    CHECK(v.pop_back() == x && v.pop_back() == x && v.size() == (size_t)n - 1, "pop_back() yields the last element");
    CHECK(v.back() == ((T)(n - 2) ^ 0x5555), "back() is the last element");
    Vector<T> w(std::move(v));
    CHECK(w.size() == (size_t)n - 1 && w[n - 2] == ((T)(n - 2) ^ 0x5555), "moving a vector keeps its elements");
    sym_reach("huge");
}
