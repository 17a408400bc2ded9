//@ bounds array sizes 1..4 (thorough 1..6); element values fully symbolic (32 bit), or reference counted objects whose release is tracked; every way of building, copying, moving, assigning and swapping arrays, in pairs; also arrays of 255..300 elements and of 65537
//@ assume indices are below the size; a copy shares its source's storage (documented non-owning alias) and is not used after the owner is gone
//@ outside arrays of other sizes, element types for which all-zero bytes are not a valid empty value
//@ harness h_array_basic
//@ harness h_array_owner parts=2
//@ harness h_array_objects
//@ harness h_array_wide steps=40000000
//@ harness h_array_huge steps=400000000
#include "ref.h"
#include <cstring>
#include <memory>
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"
using spn::structure::Array;
typedef uint32_t T;
typedef Seq<T, 8> Ref;
static const int MAXN = QT(4, 6);

static void same(Array<T>& a, const Ref& r) {
    CHECK(a.size() == (size_t)r.n && a.max_size() == (size_t)r.n, "size() is the number of elements");
    CHECK(a.empty() == (r.n == 0), "empty() tells whether there are elements");
    const Array<T>& c = a;
    for (int i = 0; i < r.n; i++) {
        CHECK(a[i] == r.v[i] && a.at(i) == r.v[i] && c[i] == r.v[i] && c.at(i) == r.v[i], "indexing yields the element at that position");
        CHECK(a.data()[i] == r.v[i] && c.data()[i] == r.v[i], "the raw storage holds the elements in order");
    }
    if (r.n) CHECK(a.front() == r.v[0] && a.back() == r.v[r.n - 1], "front() and back() are the outermost elements");
    int i = 0;
    for (auto& x : a) { CHECK(i < r.n && x == r.v[i], "iteration visits the elements in order"); i++; }
    CHECK(i == r.n, "iteration visits every element");
    i = 0;
    for (auto& x : c) { CHECK(i < r.n && x == r.v[i], "const iteration visits the elements in order"); i++; }
    CHECK(i == r.n, "const iteration visits every element");
    i = 0;
    for (auto it = a.cbegin(); it != a.cend(); ++it) { CHECK(i < r.n && *it == r.v[i], "const iteration visits the elements in order"); i++; }
    CHECK(i == r.n, "const iteration visits every element");
    i = r.n;
    for (auto it = a.rbegin(); it != a.rend(); ++it) { i--; CHECK(i >= 0 && *it == r.v[i], "reverse iteration visits the elements backwards"); }
    CHECK(i == 0, "reverse iteration visits every element");
    i = r.n;
    for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; CHECK(i >= 0 && *it == r.v[i], "const reverse iteration visits the elements backwards"); if (i < 0) break; }
    CHECK(i == 0, "const reverse iteration visits every element");
    i = r.n;
    for (auto it = c.crbegin(); it != c.crend(); ++it) { i--; CHECK(i >= 0 && *it == r.v[i], "const reverse iteration visits the elements backwards"); if (i < 0) break; }
    CHECK(i == 0, "const reverse iteration visits every element");
}

HARNESS(h_array_basic) {
    uint64_t heap = sym_live_heap();
    {
        int n = 1 + sym::pick("n", MAXN);
        T init = sym::u32("init");
        bool zero = sym::fork("zeroed");
        Array<T> a = zero ? Array<T>(n) : Array<T>(n, init);
        Ref r;
        for (int i = 0; i < n; i++) r.push_back(zero ? 0 : init);
        same(a, r);
        int at = sym::pick("at", n);
        T x = sym::u32("x");
        switch (sym::pick("write", 6)) {
        case 0: a[at] = x; break;
        case 1: a.at(at) = x; break;
        case 2: a.data()[at] = x; break;
        case 3: at = 0; a.front() = x; break;
        case 4: at = n - 1; a.back() = x; break;
        case 5: { auto it = a.begin(); for (int i = 0; i < at; i++) it++; *it = x; break; }
        }
        r.v[at] = x;
        same(a, r);
        if (sym::fork("fill")) { a.fill(x); for (int i = 0; i < n; i++) r.v[i] = x; same(a, r); sym_reach("filled"); }
        if (n >= 2) {
            auto it = a.begin(); auto old = it++;
            CHECK(*old == r.v[0] && *it == r.v[1], "postfix increment yields the position before advancing");
            auto old2 = it--;
            CHECK(*old2 == r.v[1] && *it == r.v[0], "postfix decrement yields the position before retreating");
            auto rt = a.rbegin(); auto ro = rt++;
            CHECK(*ro == r.v[n - 1] && *rt == r.v[n - 2], "reverse postfix increment yields the position before advancing");
            auto ro2 = rt--;
            CHECK(*ro2 == r.v[n - 2] && *rt == r.v[n - 1], "reverse postfix decrement yields the position before retreating");
            CHECK(a.begin() == a.begin() && a.begin() != a.end() && !(a.rbegin() == a.rend()), "iterator comparison follows the position");
        }
    }
    CHECK(sym_live_heap() == heap, "all memory is given back");
}

static Array<T> make(int kind, Ref& r, T* store) { // 0 owned, 1 list, 2 external storage of 3
    r.n = 0;
    if (kind == 0) {
        T x = sym::u32("x");
        int n = 1 + sym::pick("n", 3);
        for (int i = 0; i < n; i++) r.push_back(x);
        return Array<T>(n, x);
    }
    if (kind == 1) {
        T a = sym::u32("a"), b = sym::u32("b");
        r.push_back(a); r.push_back(b);
        return Array<T>({a, b});
    }
    return Array<T>(0);
}

HARNESS(h_array_owner) {
    uint64_t heap = sym_live_heap();
    T store[3] = {sym::u32("s"), sym::u32("s"), sym::u32("s")};
    {
        Ref ra, rb;
        Array<T> a = make(sym::pick("kind", 2), ra, store);
        bool ext = sym::fork("external");
        Ref re; for (int i = 0; i < 3; i++) re.push_back(store[i]);
        Array<T> own = make(sym::pick("kind2", 2), rb, store);
        Array<T> outer(store);
        Array<T>& b = ext ? outer : own;
        if (ext) rb = re;
        same(b, rb);
        for (int k = 0; k < QT(2, 3); k++) {
            switch (sym::pick("op", 7)) {
            case 0: a = std::move(b); ra = rb; rb.n = 0; same(a, ra); CHECK(b.size() == 0, "a moved-from array holds nothing"); sym_reach("move assigned"); goto done;
            case 1: { Array<T> m(std::move(a)); same(m, ra); CHECK(a.size() == 0, "a moved-from array holds nothing"); goto done; }
            case 2: { T p = sym::u32("p"), q = sym::u32("q"), s = sym::u32("s"); a = {p, q, s}; ra.n = 0; ra.push_back(p); ra.push_back(q); ra.push_back(s); break; }
            case 3: { a.swap(b); Ref t = ra; ra = rb; rb = t; sym_reach("swapped"); break; }
            case 4: { Array<T> c(b); same(c, rb); if (rb.n) { T w = sym::u32("w"); c[0] = w; rb.v[0] = w; } break; } // alias, destroyed first
            case 5: { Array<T> c(2); c = b; same(c, rb); a = a; c = c; break; }
            case 6: { Array<T> c(b); if (sym::fork("moved")) b = std::move(c); else b = c; break; } // an alias of itself
            }
            same(a, ra);
            same(b, rb);
        }
    done:;
    }
    CHECK(sym_live_heap() == heap, "all memory is given back");
}

static int g_live;
struct Obj {
    uint32_t v;
    Obj(uint32_t v) : v(v) { g_live++; }
    ~Obj() { g_live--; }
};
typedef std::shared_ptr<Obj> P;
HARNESS(h_array_objects) { // elements that own something are released exactly once
    g_live = 0;
    uint64_t heap = sym_live_heap();
    {
        int n = 1 + sym::pick("n", 3);
        Array<P> a(n), b(2);
        uint32_t v[3], w = sym::u32("w");
        for (int i = 0; i < n; i++) { v[i] = sym::u32("v"); a[i] = std::make_shared<Obj>(v[i]); }
        b[1] = std::make_shared<Obj>(w);
        CHECK(g_live == n + 1, "exactly the elements held are alive");
        switch (sym::pick("op", 7)) {
        case 0: a = std::move(b); CHECK(g_live == 1 && a.size() == 2 && a[1]->v == w && b.size() == 0, "assigning over an array releases its elements"); break;
        case 1: { Array<P> c(std::move(a)); CHECK(g_live == n + 1 && c[n - 1]->v == v[n - 1], "moving an array keeps its elements"); sym_reach("moved objects"); break; }
        case 2: a.swap(b); CHECK(g_live == n + 1 && b[0]->v == v[0] && a[1]->v == w, "swapping keeps the elements"); break;
        case 3: { Array<P> c(a); CHECK(g_live == n + 1 && c[0].get() == a[0].get(), "a copy shares the elements"); break; }
        case 4: {
            int m = (int)sym::pick("list", 4); // shorter, longer or as long
            if (m == 0) a = {b[1]};
            if (m == 1) a = {b[1], b[1]};
            if (m == 2) a = {b[1], b[1], b[1]};
            if (m == 3) a = {b[1], b[1], b[1], b[1]};
            CHECK(g_live == 1 && a.size() == (size_t)m + 1 && a[m]->v == w && b[1].use_count() == m + 2, "assigning a list releases the elements");
            break;
        }
        case 5: a.fill(b[1]); CHECK(g_live == 1 && b[1].use_count() == n + 1, "filling releases the elements"); break;
        case 6: { a = b; CHECK(g_live == 1 && a[1]->v == w, "assigning over an array releases its elements"); break; }
        }
    }
    CHECK(g_live == 0, "an array releases its elements");
    CHECK(sym_live_heap() == heap, "all memory is given back");
}

HARNESS(h_array_wide) { // sizes beyond what a byte or a half word counts
    uint64_t heap = sym_live_heap();
    {
        static const size_t sizes[4] = {255, 256, 257, 300};
        size_t n = sizes[sym::pick("size", 4)];
        T init = sym::u32("init"), x = sym::u32("x"), y = sym::u32("y");
        Array<T> a(n, init);
        const Array<T>& c = a;
        size_t at = n - 1 - sym::pick("at", 3);
        a[at] = x;
        CHECK(a.size() == n && a.max_size() == n && !a.empty(), "size() is the number of elements");
        if (sym::fork("moved")) { Array<T> b(std::move(a)); CHECK(b.size() == n && a.size() == 0, "moving an array keeps its elements"); a = std::move(b); sym_reach("moved"); }
        if (sym::fork("swapped")) { Array<T> b(2, y); a.swap(b); CHECK(a.size() == 2 && b.size() == n && b[at] == x, "swapping keeps the elements"); a.swap(b); }
        if (sym::fork("shared")) { Array<T> b(a); CHECK(b.size() == n && b[at] == x, "a copy has the same elements"); }
        CHECK(a.size() == n, "size() is the number of elements");
        size_t i = 0;
        for (auto& e : a) { CHECK(i < n && e == (i == at ? x : init), "iteration visits the elements in order"); i++; }
        CHECK(i == n, "iteration visits every element");
        for (auto it = c.crbegin(); it != c.crend(); ++it) { i--; CHECK(*it == (i == at ? x : init), "const reverse iteration visits the elements backwards"); }
        CHECK(i == 0, "const reverse iteration visits every element");
        for (i = 0; i < n; i++) CHECK(c[i] == (i == at ? x : init) && c.at(i) == c[i] && a.data()[i] == c[i], "indexing yields the element at that position");
        CHECK(a.back() == (at == n - 1 ? x : init) && a.front() == init, "front() and back() are the outermost elements");
        a.fill(y);
        for (i = 0; i < n; i++) CHECK(a[i] == y, "filling reaches every element");
    }
    CHECK(sym_live_heap() == heap, "all memory is given back");
}

HARNESS(h_array_huge) { // sizes beyond what a half word counts
    size_t n = 65537;
    T init = sym::u32("init"), x = sym::u32("x");
    Array<T> a(n, init);
    CHECK(a.size() == n && a.max_size() == n && !a.empty(), "size() is the number of elements");
    static const size_t ats[2] = {0, 65534};
    size_t at = sym::fork("last") ? n - 1 : ats[sym::pick("at", 2)];
    CHECK(a[at] == init, "every element is initialised");
    a.at(at) = x;
    CHECK(a[at] == x && a.data()[at] == x && a.back() == (at == n - 1 ? x : init) && a.front() == (at == 0 ? x : init), "indexing yields the element at that position");
    Array<T> b(std::move(a));
    CHECK(b.size() == n && a.size() == 0 && b[at] == x, "moving an array keeps its elements");
    Array<T> c(1);
    c.swap(b);
    CHECK(c.size() == n && b.size() == 1 && c[at] == x, "swapping keeps the elements");
    sym_reach("huge");
}
