//@ bounds results in every one of the four states, with success, error and intermediary types that are all different, all equal, or equal in pairs; values fully symbolic (32 bit); chains of up to 3 stages
//@ assume accessors are used in the state they require (their asserted precondition); match() is used on a result that holds something
//@ outside value types that throw
//@ harness h_result_distinct
//@ harness h_result_same
//@ harness h_result_chain
#include "ref.h"
#include "spine/structure/result.hpp"
using spn::structure::Result;

template<typename T, typename E, typename I> static Result<T, E, I> make(int st, uint32_t x) {
    typedef Result<T, E, I> R;
    switch (st) {
    case 1: return R(T{x});
    case 2: return R::failed(E{x});
    case 3: return R::intermediary(I{x});
    }
    return R();
}
template<typename R> static void is(const R& r, int st, uint32_t x, const char*) {
    CHECK(r.is_success() == (st == 1) && (bool)r == (st == 1), "success is reported exactly for a success");
    CHECK(r.is_failed() == (st == 2), "failure is reported exactly for a failure");
    CHECK(r.is_intermediary() == (st == 3), "an intermediary is reported exactly for an intermediary");
    if (st == 1) CHECK((uint32_t)r.value().v == x && (uint32_t)r->v == x && (uint32_t)(*r).v == x, "a success holds its value");
    if (st == 2) CHECK((uint32_t)r.error_value().v == x, "a failure holds its error");
    if (st == 3) CHECK((uint32_t)r.intermediary_value().v == x, "an intermediary holds its value");
}
struct T1 { uint32_t v; };
struct E1 { uint32_t v; };
struct I1 { uint32_t v; };
struct N1 { uint32_t v; };

template<typename T, typename E, typename I> static void laws() {
    typedef Result<T, E, I> R;
    int st = sym::pick("state", 4);
    uint32_t x = sym::u32("x"), y = sym::u32("y");
    R r = make<T, E, I>(st, x);
    is(r, st, x, "built");
    { R c = r; is(c, st, x, "copied"); is(r, st, x, "source"); R m = std::move(c); is(m, st, x, "moved"); R a; a = r; is(a, st, x, "assigned"); a = make<T, E, I>((st + 1) & 3, y); is(a, (st + 1) & 3, y, "reassigned"); }
    int calls = 0;
    { auto q = r.map([&](const T& t) { calls++; return N1{t.v + y}; });
      CHECK(calls == (st == 1), "map applies the function exactly to a success"); is(q, st, st == 1 ? x + y : x, "map"); }
    calls = 0;
    { auto q = r.map_error([&](const E& t) { calls++; return N1{t.v ^ y}; });
      CHECK(calls == (st == 2), "map_error applies the function exactly to a failure"); is(q, st, st == 2 ? x ^ y : x, "map_error"); }
    calls = 0;
    { auto q = r.map_intermediary([&](const I& t) { calls++; return N1{t.v - y}; });
      CHECK(calls == (st == 3), "map_intermediary applies the function exactly to an intermediary"); is(q, st, st == 3 ? x - y : x, "map_intermediary"); }
    calls = 0;
    int to = sym::pick("to", 4);
    { auto q = r.and_then([&](const T& t) { calls++; return make<T, E, I>(to, t.v + y); });
      CHECK(calls == (st == 1), "and_then continues exactly after a success");
      if (st == 1) is(q, to, x + y, "and_then"); else is(q, st, x, "and_then"); }
    calls = 0;
    { auto q = r.or_else([&](const E& t) { calls++; return make<T, E, I>(to, t.v + y); });
      CHECK(calls == (st == 2), "or_else continues exactly after a failure");
      if (st == 2) is(q, to, x + y, "or_else"); else is(q, st, x, "or_else"); }
    CHECK((uint32_t)r.value_or(T{y}).v == (st == 1 ? x : y), "value_or yields the value of a success and the default otherwise");
    CHECK((uint32_t)r.error_or(E{y}).v == (st == 2 ? x : y), "error_or yields the error of a failure and the default otherwise");
    calls = 0;
    CHECK((uint32_t)r.unwrap_or_else([&] { calls++; return T{y}; }).v == (st == 1 ? x : y) && calls == (st != 1), "unwrap_or_else falls back exactly without a success");
    if (st) {
        uint64_t got = r.match([](const T& t) { return 1ull << 40 | t.v; }, [](const E& t) { return 2ull << 40 | t.v; }, [](const I& t) { return 3ull << 40 | t.v; });
        CHECK(got == ((uint64_t)st << 40 | x), "match calls the handler of the state with its value");
    }
    is(r, st, x, "unchanged");
    if (st == 1) { CHECK((uint32_t)r.unwrap().v == x, "unwrap yields the value"); sym_reach("success"); }
    if (st == 2) { CHECK((uint32_t)r.unwrap_error_value().v == x, "unwrapping an error yields the error"); sym_reach("failure"); }
    if (st == 3) { CHECK((uint32_t)r.unwrap_intermediary_value().v == x, "unwrapping an intermediary yields it"); sym_reach("intermediary"); }
}
HARNESS(h_result_distinct) { laws<T1, E1, I1>(); }
HARNESS(h_result_same) {
    switch (sym::pick("types", 4)) {
    case 0: laws<T1, T1, T1>(); break;
    case 1: laws<T1, E1, T1>(); break;
    case 2: laws<T1, E1, E1>(); break;
    case 3: laws<T1, T1, I1>(); break;
    }
}
template<typename T, typename E, typename I> static void chains() {
    typedef Result<T, E, I> R;
    int st = sym::pick("state", 4);
    uint32_t x = sym::u32("x");
    R r = make<T, E, I>(st, x);
    int to[3];
    uint32_t add[3];
    int calls = 0;
    for (int i = 0; i < 3; i++) { to[i] = sym::pick("to", 4); add[i] = sym::u32("add"); }
    R q = r.chain([&](I& v) { calls++; return make<T, E, I>(to[0], v.v + add[0]); }).chain([&](I& v) { calls++; return make<T, E, I>(to[1], v.v + add[1]); }).chain([&](I& v) { calls++; return make<T, E, I>(to[2], v.v + add[2]); });
    int want = st, wantCalls = 0;
    uint32_t wx = x;
    for (int i = 0; i < 3 && want == 3; i++) { want = to[i]; wx += add[i]; wantCalls++; }
    CHECK(calls == wantCalls, "a chain runs its stages exactly while the result is an intermediary");
    is(q, want, wx, "chain");
    // a stage is handed the intermediary itself, not a copy of it
    r.chain([&](I& v) { v.v ^= 0x55; return R(); });
    is(r, st, st == 3 ? x ^ 0x55 : x, "a stage may update the intermediary in place");
    if (wantCalls == 3) sym_reach("full chain");
}
HARNESS(h_result_chain) { if (sym::fork("same")) chains<T1, T1, T1>(); else chains<T1, E1, I1>(); }
