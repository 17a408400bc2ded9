//@ bounds every sequence of 4 (thorough 6) operations out of throwing each kind of exception, a failed or met assertion or expectation (on any number), and setting, replacing or removing the handler; a handler that throws another exception, replaces or removes the handler, or asserts, while it handles one; debug build of the library
//@ assume none
//@ outside what the platform does when it halts (nothing, on the host); handlers that throw
//@ defs -DDEBUG_SPINE
//@ harness h_handler parts=4
//@ harness h_condition
//@ harness h_nested
#include "clock.h"
#include "ref.h"
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
#include <memory>
#include <utility>

using spn::core::Exception;
using spn::core::ExceptionHandler;
static int live;
struct Handler : ExceptionHandler {
    int id, calls = 0;
    const char* what = nullptr;
    const char* type = nullptr;
    explicit Handler(int id) : id(id) { live++; }
    ~Handler() override { live--; }
    void handle_exception(const Exception& e) override { calls++; what = e.what(); type = e.error_type(); }
};
static bool same(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static bool holds(const char* all, size_t n, const char* part) {
    size_t k = strlen(part);
    for (size_t i = 0; i + k <= n; i++) { size_t j = 0; while (j < k && all[i + j] == part[j]) j++; if (j == k) return true; }
    return false;
}
static int evaluated;
static bool eval(bool b) { evaluated++; return b; }
HARNESS(h_handler) {
    spn::logging::set_log_level(spn::logging::LogLevel::WARN);
    uint64_t heap = sym_live_heap();
    (void)heap;
    Handler* h = nullptr;
    int ids = 0;
    CHECK(spn::core::machine_exception_handler() == nullptr, "there is no handler at first");
    for (int i = 0; i < QT(4, 6); i++) {
        int before = h ? h->calls : 0;
        const char *what = nullptr, *type = nullptr;
        rt_stdout_reset();
        switch (sym::pick("op", 7)) {
        case 0: what = "one"; type = "Runtime exception"; spn::throw_exception(spn::runtime_exception("one")); break;
        case 1: what = "two"; type = "Logic exception"; spn::throw_exception(spn::logic_exception("two")); break;
        case 2: { what = "three"; type = "Exception"; Exception e("three"); Exception copy(e); copy.throw_error(); break; }
        case 3: {
            int v = (int)sym::range("v", -100, 100);
            bool c = v > 3;
            evaluated = 0;
            spn_assert(eval(c));
            CHECK(evaluated == 1, "an assertion evaluates its condition once");
            if (!c) { what = "eval(c)"; type = "Assertion exception"; }
            break;
        }
        case 4: {
            evaluated = 0;
            spn_expect(eval(sym::fork("met")));
            CHECK(evaluated == 1, "an expectation evaluates its condition once");
            break;
        }
        default: {
            Handler* next = sym::fork("handler") ? new Handler(++ids) : nullptr;
            int alive = live;
            std::unique_ptr<ExceptionHandler> old = spn::core::set_machine_exception_handler(std::unique_ptr<ExceptionHandler>(next));
            CHECK(old.get() == h, "setting a handler returns the previous one");
            CHECK(live == alive, "no handler is destroyed by setting another");
            h = next;
            before = 0;
            break;
        }
        }
        CHECK(spn::core::machine_exception_handler() == h, "the handler is the one set last");
        if (h) {
            CHECK(h->calls == before + (what != nullptr), "every exception reaches the handler once, and nothing else does");
            if (what) CHECK(same(h->what, what) && same(h->type, type), "the handler is given the exception thrown");
        }
        if (what) {
            CHECK(holds(rt_stdout_data(), rt_stdout_len(), what) && holds(rt_stdout_data(), rt_stdout_len(), type), "an exception is logged with its type and message");
        } else CHECK(rt_stdout_len() == 0, "nothing else is logged as a warning");
    }
    spn::core::set_machine_exception_handler(nullptr);
    CHECK(live == 0, "handlers are destroyed once");
    sym_reach("end");
}
struct Busy : ExceptionHandler { // does something with exceptions while it handles one
    int calls = 0, depth = 0, deepest = 0, other = 0, op;
    const char *first = nullptr, *last = nullptr;
    std::unique_ptr<ExceptionHandler> mine, next; // itself once it is replaced
    void handle_exception(const Exception& e) override {
        calls++;
        deepest = std::max(deepest, ++depth);
        (calls == 1 ? first : last) = e.what();
        if (calls == 1) {
            if (op == 0) spn::throw_exception(spn::logic_exception("inner"));
            if (op == 1) spn_assert(other == 7);
            if (op >= 2) mine = spn::core::set_machine_exception_handler(std::move(next));
            if (op == 4) spn::throw_exception(spn::logic_exception("inner"));
            CHECK(same(e.what(), "outer"), "an exception stays what it is while others are thrown");
        }
        depth--;
    }
};
HARNESS(h_nested) {
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    auto made = std::make_unique<Busy>();
    Busy* b = made.get();
    b->op = (int)sym::pick("op", 5);
    Handler* next = nullptr;
    if (b->op >= 3) b->next.reset(next = new Handler(2));
    spn::core::set_machine_exception_handler(std::move(made));
    spn::throw_exception(spn::runtime_exception("outer"));
    std::unique_ptr<ExceptionHandler> keep;
    if (b->op >= 2) keep = std::move(b->mine);
    CHECK(b->op < 2 || keep.get() == b, "setting a handler returns the previous one");
    CHECK(b->calls == (b->op < 2 ? 2 : 1) && same(b->first, "outer"), "every exception reaches the handler once, and nothing else does");
    if (b->op < 2) CHECK(same(b->last, b->op ? "other == 7" : "inner"), "the handler is given the exception thrown");
    CHECK(spn::core::machine_exception_handler() == (b->op < 2 ? (ExceptionHandler*)b : next), "the handler is the one set last");
    if (next) CHECK(next->calls == (b->op == 4) && (b->op != 4 || same(next->what, "inner")), "every exception reaches the handler set last");
    spn::core::set_machine_exception_handler(nullptr);
    CHECK(live == 0, "handlers are destroyed once");
    sym_reach("end");
}
HARNESS(h_condition) {
    spn::core::set_machine_exception_handler(std::make_unique<Handler>(1));
    Handler* h = (Handler*)spn::core::machine_exception_handler();
    int64_t a = sym::i64("a"), b = sym::i64("b");
    if (sym::fork("expect")) {
        spn_expect(a < b);
        CHECK(h->calls == 0, "a failed expectation does not throw");
    } else {
        spn_assert(a < b);
        CHECK(h->calls == (a < b ? 0 : 1), "an assertion throws exactly if its condition does not hold");
    }
    sym_reach("end");
}
