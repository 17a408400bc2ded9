//@ bounds pipelines of capacity 1..4; 6 (thorough 8) operations out of push, clock step and expire in any order; delays of -10^12..10^12 ms and clock steps of 0..2*10^12 ms, all symbolic; also pipelines filled with 254..259 futures
//@ assume a future is not pushed twice at the same time; the pipeline is not pushed beyond its capacity
//@ outside other numbers of pending futures
//@ harness h_pipeline parts=8 pdepth=6
//@ harness h_again
//@ harness h_armed
//@ harness h_future
//@ harness h_pipeline_wide steps=60000000
//@ harness h_pipeline_text
#include "ref.h"
#include "clock.h"
#include "spine/eventsystem/pipeline.hpp"
#include "spine/core/utils/time_repr.hpp"
using namespace spn::eventsystem;
HARNESS(h_pipeline) {
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    int cap = 1 + (int)sym::pick("capacity", 4);
    uint64_t heap = sym_live_heap();
    {
        Pipeline p(cap);
        Future* id[8];
        int64_t due[8];
        bool pending[8];
        int n = 0, live = 0;
        for (int k = 0; k < QT(6, 8); k++) {
            CHECK(p.contains_futures() == (live > 0) && p.pipe().size() == (size_t)live, "the pipeline holds what was pushed and not yet expired");
            int64_t first = 0;
            bool any = false;
            for (int i = 0; i < n; i++) if (pending[i]) { first = any ? (due[i] < first ? due[i] : first) : due[i]; any = true; }
            CHECK(p.time_until_next_future().raw() == (!any || first <= now ? 0 : first - now), "the time until the next future is that of the soonest one");
            switch (sym::pick("op", 3)) {
            case 0: {
                sym_assume(live < cap);
                int64_t d = sym::range("delay", -1000000000000LL, 1000000000000LL);
                auto f = std::make_shared<Future>(k_time_ms(d));
                id[n] = f.get();
                due[n] = now + d;
                pending[n] = true;
                ONLY_LEGAL(d > 0);
                p.push(std::move(f));
                CHECK(p.pipe().size() == (size_t)live + 1, "a push adds one future");
                n++; live++;
                break;
            }
            case 1: now = clock_advance(sym::range("step", 0, 2000000000000LL)); break;
            case 2: {
                bool ready = any && first <= now;
                CHECK(p.contains_expired_futures() == ready, "the pipeline tells whether a future is due");
                sym_assume(ready);
                auto f = p.expire();
                CHECK(f != nullptr, "a due future is handed out");
                int which = -1;
                for (int i = 0; i < n; i++) if (id[i] == f.get() && pending[i]) which = i;
                CHECK(which >= 0, "a future fires once");
                CHECK(due[which] <= now, "a future does not fire early");
                CHECK(f->future().raw() == due[which], "a future fires at the moment asked for");
                for (int i = 0; i < n; i++)
                    if (pending[i] && i != which) CHECK((due[which] < due[i]) | ((due[which] == due[i]) & (which < i)), "futures fire in order of their moments, and in order of pushing at the same moment");
                pending[which] = false;
                live--;
                // keep the object so that its address stays unique; released below
                static_assert(sizeof(f) > 0);
                if (live == 0) sym_reach("drained");
                id[which] = nullptr;
                break;
            }
            }
        }
    }
    CHECK(sym_live_heap() == heap, "the pipeline releases what it holds");
}
HARNESS(h_again) { // a future may be pushed again once it has fired
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    Pipeline p(2);
    auto f = std::make_shared<Future>(k_time_ms(0));
    Future* raw = f.get();
    int64_t d = sym::range("delay", 1, 1000000000000LL);
    for (int round = 0; round < QT(3, 5); round++) {
        f->reschedule(k_time_ms(d));
        CHECK(!f->expired() && f->time_until_future().raw() == d, "rescheduling arms a future again");
        p.push(std::move(f));
        CHECK(!p.contains_expired_futures(), "a rescheduled future does not fire early");
        now = clock_advance(sym::range("early", 0, d - 1));
        CHECK(!p.contains_expired_futures(), "a rescheduled future does not fire early");
        now = clock_advance(d);
        CHECK(p.contains_expired_futures(), "a rescheduled future fires when due");
        f = p.expire();
        CHECK(f.get() == raw && f->expired(), "the future that was pushed fires");
        if (sym::fork("other delay")) d = sym::range("delay", 1, 1000000000000LL);
    }
    sym_reach("again");
}
HARNESS(h_armed) { // a future counts from the moment it is pushed, whenever it was made
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    int64_t d = sym::range("delay", 1, 1000000000000LL), e = sym::range("other", 1, 1000000000000LL);
    auto a = std::make_shared<Future>(k_time_ms(d)), b = std::make_shared<Future>(k_time_ms(e));
    Future *ra = a.get(), *rb = b.get();
    Pipeline p(2);
    int64_t t = clock_advance(sym::range("wait", 0, 2000000000000LL));
    p.push(std::move(a));
    CHECK(!p.contains_expired_futures() && p.time_until_next_future().raw() == d, "a future counts from the moment it is pushed");
    int64_t u = clock_advance(sym::range("between", 0, 2000000000000LL));
    p.push(std::move(b));
    CHECK(ra->future().raw() == t + d && rb->future().raw() == u + e, "a future counts from the moment it is pushed");
    clock_advance(4000000000000LL);
    CHECK(p.expire().get() == (t + d <= u + e ? ra : rb), "futures fire in order of their moments, and in order of pushing at the same moment");
    CHECK(p.expire().get() == (t + d <= u + e ? rb : ra), "futures fire in order of their moments, and in order of pushing at the same moment");
    sym_reach("armed");
}
HARNESS(h_future) {
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    int64_t a = sym::range("a", -1000000000000LL, 1000000000000LL), s = sym::range("step", 0, 2000000000000LL), b = sym::range("b", -1000000000000LL, 1000000000000LL);
    Future x{k_time_ms(a)};
    clock_advance(s);
    Future y{k_time_ms(b)};
    CHECK((x < y) == (a < s + b) && (x == y) == (a == s + b), "futures compare by the moment they happen");
    CHECK(x.future().raw() == now + a && y.future().raw() == now + s + b, "a future knows its moment");
    CHECK(x.expired() == (a <= s), "a future is expired from its moment on");
    sym_reach("future");
}

HARNESS(h_pipeline_wide) { // more futures than a byte counts
    int64_t now = 1000;
    clock_set(now);
    static Future* id[264];
    static int64_t due[264];
    int cap = 254 + (int)sym::pick("capacity", 6);
    uint64_t heap = sym_live_heap();
    {
        Pipeline p(cap);
        int64_t d0 = sym::range("delay", 1, 1000);
        for (int i = 0; i < cap; i++) {
            int64_t d = i == 0 || i == cap - 1 ? d0 : 2000 + (i * 37) % cap;
            auto f = std::make_shared<Future>(k_time_ms(d));
            id[i] = f.get(); due[i] = now + d;
            p.push(std::move(f));
            CHECK(p.pipe().size() == (size_t)i + 1 && p.contains_futures(), "a push adds one future");
        }
        CHECK(p.time_until_next_future().raw() == d0, "the time until the next future is that of the soonest one");
        now = clock_advance(d0);
        for (int k = 0; k < 2; k++) {
            CHECK(p.contains_expired_futures(), "the pipeline tells whether a future is due");
            CHECK(p.expire().get() == id[k ? cap - 1 : 0], "futures fire in order of their moments, and in order of pushing at the same moment");
        }
        CHECK(!p.contains_expired_futures() && p.pipe().size() == (size_t)cap - 2, "a future does not fire early");
        now = clock_advance(5000);
        int64_t last = 0;
        for (int k = 2; k < cap; k++) {
            auto f = p.expire();
            int64_t at = f->future().raw();
            CHECK(at >= last && at <= now, "futures fire in order of their moments");
            last = at;
        }
        CHECK(!p.contains_futures(), "the pipeline holds what was pushed and not yet expired");
        sym_reach("drained");
    }
    CHECK(sym_live_heap() == heap, "the pipeline releases what it holds");
}
// the pipeline as a text lists the time left until each pending future, the soonest first
HARNESS(h_pipeline_text) {
    clock_set(1000);
    int cap = 1 + (int)sym::pick("capacity", 3), n = (int)sym::pick("pending", cap + 1);
    static const int64_t DELAYS[] = {1, 999, 61000, 3600000, 86400001};
    uint64_t heap = sym_live_heap();
    {
        Pipeline p(cap);
        int64_t d[3];
        for (int i = 0; i < n; i++) {
            d[i] = DELAYS[sym::pick("delay", 5)];
            p.push(std::make_shared<Future>(k_time_ms(d[i])));
        }
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++)
                if (d[j] < d[i]) { int64_t t = d[i]; d[i] = d[j]; d[j] = t; }
        int64_t step = sym::pick("step", 2) && !(n && d[0] <= 500) ? 500 : 0;
        clock_advance(step);
        std::string t = p.to_string();
        CHECK(t.size() >= 12 && t.compare(0, 11, "Pipeline: [") == 0 && t.back() == ']', "the text of a pipeline is a list");
        size_t at = 11;
        for (int i = 0; i < n; i++) {
            std::string r = spn::core::utils::repr(k_time_ms(d[i] - step));
            CHECK(t.compare(at, r.size(), r) == 0, "the text lists the time left until each pending future, the soonest first");
            at += r.size();
            if (i < n - 1 || t[at] == ',') { CHECK(t.compare(at, 2, ", ") == 0, "the times are separated by commas"); at += 2; }
        }
        CHECK(at == t.size() - 1, "the text lists nothing else");
        CHECK(p.pipe().size() == (size_t)n, "making a text leaves the pipeline as it is");
        sym_reach("text");
    }
    CHECK(sym_live_heap() == heap, "the text is released");
}
