//@ bounds capacity 1..3 (thorough: 1..5); 5 (thorough 6) operations out of push, emplace, pop and writing to the top, in any order, with fully symbolic elements (32 bit) or reference counted objects; also stacks filled with 254..258 elements
//@ assume popping and looking at the top are used on a stack that is not empty
//@ outside other capacities; pushing onto a full stack in a debug build
//@ harness h_stack_ops parts=8 pdepth=4
//@ harness h_stack_objects parts=8 pdepth=4
//@ harness h_stack_wide
#include "ref.h"
#include <memory>
#include "spine/structure/stack.hpp"
using spn::structure::Stack;

HARNESS(h_stack_ops) {
    int cap = 1 + (int)sym::pick("cap", QT(3, 5));
    Stack<uint32_t> s(cap);
    Seq<uint32_t, 8> r;
    for (int k = 0; k < QT(5, 6); k++) {
        CHECK(s.size() == (size_t)r.n, "size() is the number of elements left");
        CHECK(s.empty() == (r.n == 0), "empty() tells whether there are elements");
        if (r.n) CHECK(s.top() == r.v[r.n - 1], "the top is the element pushed last");
        switch (sym::pick("op", 4)) {
        case 0: {
            uint32_t x = sym::u32("x"), kept = x;
            s.push(x);
            CHECK(x == kept, "pushing leaves the variable as it was");
            if (r.n < cap) r.push_back(x); else LEGAL(false);
            break;
        }
        case 1: { uint32_t x = sym::u32("x"); s.emplace(uint32_t(x)); if (r.n < cap) r.push_back(x); else LEGAL(false); break; }
        case 2: sym_assume(r.n > 0); s.pop(); r.remove(r.n - 1); sym_reach("pop"); break;
        case 3: { sym_assume(r.n > 0); uint32_t x = sym::u32("x"); s.top() = x; r.v[r.n - 1] = x; break; }
        }
        if (r.n == cap) sym_reach("full");
    }
    while (r.n) {
        CHECK(s.size() == (size_t)r.n && !s.empty() && s.top() == r.v[r.n - 1], "elements come back in reverse order");
        s.pop();
        r.remove(r.n - 1);
    }
    CHECK(s.empty() && s.size() == 0, "a stack that gave up all its elements is empty");
}

struct Plate {
    static int& live() { static int n; return n; }
    uint32_t v;
    Plate(uint32_t v) : v(v) { live()++; }
    ~Plate() { live()--; }
};
typedef std::shared_ptr<Plate> PP;
HARNESS(h_stack_objects) {
    Plate::live() = 0;
    int cap = 1 + (int)sym::pick("cap", QT(3, 4));
    uint64_t heap = sym_live_heap();
    {
        Stack<PP> s(cap);
        Seq<uint32_t, 8> r;
        for (int k = 0; k < QT(5, 6); k++) {
            CHECK(Plate::live() == r.n, "exactly the elements on the stack are alive");
            if (r.n) CHECK(s.top() && s.top()->v == r.v[r.n - 1] && s.top().use_count() == 1, "the top is the element pushed last");
            switch (sym::pick("op", 3)) {
            case 0: {
                uint32_t x = sym::u32("x");
                PP p = std::make_shared<Plate>(x);
                s.push(p);
                CHECK(p && p->v == x, "pushing leaves the variable as it was");
                if (r.n < cap) r.push_back(x); else LEGAL(false);
                break;
            }
            case 1: { uint32_t x = sym::u32("x"); s.emplace(std::make_shared<Plate>(x)); if (r.n < cap) r.push_back(x); else LEGAL(false); break; }
            case 2: sym_assume(r.n > 0); s.pop(); r.remove(r.n - 1); sym_reach("pop"); break;
            }
        }
    }
    CHECK(Plate::live() == 0, "a stack releases its elements");
    CHECK(sym_live_heap() == heap, "a stack gives its memory back");
}

HARNESS(h_stack_wide) {
    int n = 254 + (int)sym::pick("count", 5);
    Stack<uint16_t> s(n);
    uint16_t x = sym::u16("x");
    for (int i = 0; i < n; i++) { uint16_t e = (uint16_t)(x + i); s.push(e); }
    for (int i = n - 1; i >= 0; i--) {
        CHECK(s.size() == (size_t)i + 1 && !s.empty(), "size() is the number of elements left");
        CHECK(s.top() == (uint16_t)(x + i), "elements come back in reverse order");
        s.pop();
    }
    CHECK(s.empty() && s.size() == 0, "a stack that gave up all its elements is empty");
    sym_reach("wide");
}
