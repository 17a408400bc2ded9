//@ bounds stacks of 0..3 filters out of mapping, inverting, averaging and passing through in any order and combination, single and double precision; 2 (thorough 3) samples, each any number within +-10^6; any filter detached, put back at the end or dropped; a reset to any number between samples of a stack of two averages
//@ assume none
//@ outside more filters than the stack was made for
//@ harness h_stack parts=8 qtimeout=3000
//@ harness h_slots
//@ harness h_restart qtimeout=3000
#include "ref.h"
#include <algorithm>
#include <memory>
#include "spine/core/exception.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;
template<typename F> static F num(const char* n);
template<> float num<float>(const char* n) { float f = sym::f32(n); sym_assume(f >= -1000000 && f <= 1000000); return f; }
template<> double num<double>(const char* n) { double f = sym::f64(n); sym_assume(f >= -1000000 && f <= 1000000); return f; }
template<typename F> struct Half : Filter<F> { // a filter of the user's own
    F v = 0;
    int* live;
    Half(int* l) : live(l) { ++*live; }
    ~Half() override { --*live; }
    F value(F s) override { return v = s * F(0.5) + F(1); }
    F value() const override { return v; }
    void new_sample(F s) override { value(s); }
    void reset_to(F x) override { v = x; }
};
template<typename F> static std::unique_ptr<Filter<F>> make(int kind, int* live) {
    switch (kind) {
    case 0: return std::make_unique<Half<F>>(live);
    case 1: return std::make_unique<MappedRange<F>>(typename MappedRange<F>::Config{.input_lower_limit = -1000, .input_upper_limit = 1000, .output_lower_limit = 0, .output_upper_limit = 512});
    case 2: return std::make_unique<EWMA<F>>(typename EWMA<F>::Config{.K = 4});
    }
    return std::make_unique<Passthrough<F>>(typename Passthrough<F>::Config{});
}
template<typename F> static void stack() {
    int live = 0, none = 0, kinds[3], n = (int)sym::pick("filters", 4);
    uint64_t heap = sym_live_heap();
    {
        Stack<F> st(3);
        std::unique_ptr<Filter<F>> mine[3]; // the same filters, applied by hand
        for (int i = 0; i < n; i++) {
            kinds[i] = (int)sym::pick("kind", 4);
            st.attach_filter(make<F>(kinds[i], &live));
            mine[i] = make<F>(kinds[i], &none);
        }
        CHECK((int)st.filter_slots_occupied() == n, "every filter attached occupies a slot");
        int cut = (int)sym::pick("detach", n + 1);
        for (int i = 0; i < QT(2, 3); i++) {
            if (i == 1 && cut < n) {
                auto out = st.detach_filter((uint8_t)cut);
                CHECK(out != nullptr && out->value() == mine[cut]->value(), "detaching hands out the filter of that slot");
                CHECK((int)st.filter_slots_occupied() == n - 1, "detaching frees the slot");
                auto m = std::move(mine[cut]);
                for (int j = cut; j + 1 < n; j++) mine[j] = std::move(mine[j + 1]);
                if (sym::fork("put back")) { st.attach_filter(std::move(out)); mine[n - 1] = std::move(m); }
                else n--;
            }
            F s = num<F>("sample"), want = s;
            for (int j = 0; j < n; j++) want = mine[j]->value(want);
            if (i % 2) st.new_sample(s);
            else CHECK(st.value(s) == want, "a sample passes through all filters in the order attached");
            if (n) CHECK(st.value() == want, "the value of the stack is that of its last filter");
        }
        if (n) {
            F r = num<F>("reset");
            st.reset_to(r);
            CHECK(st.value() == r, "a reset reaches every filter");
            while (n) { n--; CHECK(st.detach_filter((uint8_t)n)->value() == r, "a reset reaches every filter"); }
            CHECK(st.filter_slots_occupied() == 0, "detaching frees the slot");
        }
        sym_reach("end");
    }
    CHECK(live == 0 && none == 0, "every filter is destroyed once");
    CHECK(sym_live_heap() == heap, "nothing is leaked");
}
HARNESS(h_stack) {
    if (sym::fork("double")) stack<double>();
    else stack<float>();
}
HARNESS(h_slots) {
    uint8_t slots = (uint8_t)sym::pick("slots", 6);
    Stack<float> st(slots);
    CHECK(st.filter_slots() == slots, "the number of slots is the one asked for");
    uint8_t index = sym::u8("index");
    CHECK(st.detach_filter(index) == nullptr, "there is nothing to detach from an empty slot");
    for (int i = 0; i < slots; i++) {
        CHECK(st.filter_slots_occupied() == (size_t)i, "every filter attached occupies a slot");
        st.attach_filter(std::make_unique<Passthrough<float>>(Passthrough<float>::Config{}));
        CHECK(st.filter_slots() == slots, "the number of slots is the one asked for");
    }
    sym_reach("end");
}

HARNESS(h_restart) { // a reset starts every filter anew, also when it shows that value already
    Stack<float> st(2);
    st.attach_filter(std::make_unique<EWMA<float>>(EWMA<float>::Config{.K = 4}));
    if (sym::fork("two")) st.attach_filter(std::make_unique<EWMA<float>>(EWMA<float>::Config{.K = 4}));
    for (int i = 0; i < 3; i++) st.new_sample(8);
    float r = num<float>("reset");
    st.reset_to(r);
    CHECK(st.value() == r, "a reset reaches every filter");
    float s = num<float>("sample");
    st.new_sample(s);
    CHECK(st.value() == s, "after a reset, a filter starts anew");
    sym_reach("restart");
}
