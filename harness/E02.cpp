//@ bounds event systems with 2 kinds of events, up to 2 handlers each, stores of 1..3 (thorough 4) events; 5 (thorough 6) steps of schedule, trigger or clock step plus loop, each with symbolic kind, delay (0..10^12 ms), data and clock step (0..2*10^12 ms); a handler may schedule or trigger again while it handles; also 300 kinds of events, 255..257 events at once and 255..256 handlers of one
//@ assume event kinds are in range
//@ outside whether a handler attached while an event is being handled gets that event too; other numbers of events
//@ harness h_events parts=8 pdepth=6
//@ harness h_nested parts=2
//@ harness h_data
//@ harness h_attach
//@ harness h_events_wide parts=4 steps=60000000
#include "ref.h"
#include "clock.h"
#include "spine/eventsystem/eventsystem.hpp"
using namespace spn::core;
struct Rec { int handler; size_t id; bool has; uint32_t v; };
static Rec g_log[32];
static int g_n;
struct H : EventHandler {
    int nr;
    H(EventSystem* s, int n) : EventHandler(s), nr(n) {}
    void handle_event(const Event& e) override { g_log[g_n++] = {nr, e.id(), e.data().has_value(), e.data().has_value() ? e.data().unsigned_value() : 0}; }
};
static EventSystem::Config config(size_t cap) { return {2, cap, 2, false}; }

HARNESS(h_events) {
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    g_n = 0;
    int cap = 1 + (int)sym::pick("store", QT(3, 4));
    uint64_t heap = sym_live_heap();
    {
        EventSystem es(config(cap));
        H a(&es, 0), b(&es, 1);
        es.attach(0, &a);
        es.attach(0, &b);
        es.attach(1, &b);
        struct { int64_t due; int kind; bool data; uint32_t v; bool pending; } ev[8];
        int n = 0, live = 0;
        for (int k = 0; k < QT(5, 6); k++) {
            int seen = g_n;
            switch (sym::pick("op", 3)) {
            case 0: { // schedule
                int kind = (int)sym::pick("kind", 2);
                int64_t d = sym::range("delay", 0, 1000000000000LL);
                bool data = k % 2;
                uint32_t v = data ? sym::u32("data") : 0;
                ONLY_LEGAL(d > 0);
                if (data) es.schedule(kind, k_time_ms(d), Event::Data(v));
                else es.schedule(kind, k_time_ms(d));
                LEGAL(live < cap);
                if (live < cap) {
                    ev[n++] = {now + d, kind, data, v, true};
                    live++;
                } else sym_reach("store exhausted");
                CHECK(g_n == seen, "scheduling does not fire");
                break;
            }
            case 1: { // trigger
                int kind = (int)sym::pick("kind", 2);
                uint32_t v = sym::u32("data");
                es.trigger(kind, Event::Data(v));
                LEGAL(live < cap);
                if (live < cap) {
                    CHECK(g_n == seen + (kind == 0 ? 2 : 1), "triggering reaches every handler of the event, once");
                    CHECK(g_log[seen].handler == (kind == 0 ? 0 : 1) && g_log[seen].id == (size_t)kind && g_log[seen].has && g_log[seen].v == v, "the handler gets the event and its data");
                    if (kind == 0) CHECK(g_log[seen + 1].handler == 1 && g_log[seen + 1].id == 0 && g_log[seen + 1].v == v, "the handlers are called in the order they were attached");
                } else CHECK(g_n == seen, "nothing fires when no event is free");
                break;
            }
            case 2: { // time passes
                now = clock_advance(sym::range("step", 0, 2000000000000LL));
                es.loop();
                int at = seen;
                for (int r = 0; r < n; r++) { // reference: pending due events by moment, then by age
                    int best = -1;
                    for (int i = 0; i < n; i++) if (ev[i].pending && ev[i].due <= now && (best < 0 || ev[i].due < ev[best].due)) best = i;
                    if (best < 0) break;
                    auto& e = ev[best];
                    e.pending = false;
                    live--;
                    int c = e.kind == 0 ? 2 : 1;
                    CHECK(at + c <= g_n, "an event fires once it is due");
                    for (int q = 0; q < c; q++) {
                        auto& l = g_log[at + q];
                        CHECK(l.handler == (e.kind == 0 ? q : 1) && l.id == (size_t)e.kind, "events fire in order of their moments, to each handler in order");
                        CHECK(l.has == e.data && l.v == e.v, "the handler gets the data that was scheduled");
                    }
                    at += c;
                    sym_reach("fired");
                }
                CHECK(at == g_n, "no event fires early or twice");
                break;
            }
            }
        }
    }
    CHECK(sym_live_heap() == heap, "the event system releases everything");
}
struct N : EventHandler {
    int kind, again; int64_t delay; uint32_t v; int count = 0;
    N(EventSystem* s, int a, int64_t d, uint32_t v) : EventHandler(s), again(a), delay(d), v(v) {}
    void handle_event(const Event& e) override {
        count++;
        if (e.id() != 0) return;
        if (again == 1) evsys()->schedule(1, k_time_ms(delay), Event::Data(v));
        if (again == 2) evsys()->trigger(1, Event::Data(v));
        if (again == 3) { auto x = evsys()->event(1, k_time_ms(delay), Event::Data(v)); evsys()->schedule(std::move(x)); }
    }
};
HARNESS(h_nested) { // handlers that use the event system
    int64_t now = sym::range("boot", 0, 1000000000000LL);
    clock_set(now);
    g_n = 0;
    int cap = 1 + (int)sym::pick("store", 3), again = (int)sym::pick("again", 4);
    bool triggered = sym::fork("triggered");
    int64_t d = sym::range("delay", 0, 1000), d2 = sym::range("nested delay", 0, 1000);
    uint32_t v = sym::u32("data"), v2 = sym::u32("nested data");
    ONLY_LEGAL((d > 0) & (d2 > 0));
    EventSystem es(config(cap));
    N h(&es, again, d2, v2);
    H after(&es, 7); // also attached, after it
    es.attach(0, &h);
    es.attach(0, &after);
    es.attach(1, &h);
    es.attach(1, &after);
    if (triggered) {
        LEGAL(cap > 1);
        es.trigger(0, Event::Data(v));
        LEGAL(cap > 1);
    } else {
        es.schedule(0, k_time_ms(d), Event::Data(v));
        es.loop();
        LEGAL(cap > 1);
        CHECK(h.count == (d > 0 ? 0 : again == 0 ? 1 : h.count), "no event fires early");
        now = clock_advance(d);
        es.loop();
        LEGAL(cap > 1);
    }
    CHECK(h.count >= 1, "the event fires when due");
    if (cap > 1) { // room for the nested event next to the one being handled
        int64_t extra = d2;
        clock_advance(extra);
        es.loop();
        CHECK(h.count == (again ? 2 : 1), "what a handler schedules or triggers fires too, once");
        CHECK(g_n == h.count, "every handler gets every event");
        int first = 0, nested = 0;
        for (int i = 0; i < g_n; i++) {
            CHECK(g_log[i].has && (g_log[i].id == 0 ? g_log[i].v == v : g_log[i].v == v2), "every handler gets the event's own data, whatever another one schedules or triggers meanwhile");
            (g_log[i].id == 0 ? first : nested)++;
        }
        CHECK(first == 1 && nested == (again ? 1 : 0), "every handler gets every event once");
        sym_reach("nested");
    }
    clock_advance(5000);
    es.loop();
    es.loop();
    CHECK(h.count <= 2, "nothing fires twice");
    // all events are back in the store
    {
        std::shared_ptr<Event> e[3];
        for (int i = 0; i < cap; i++) { e[i] = es.event(0, k_time_ms(1)); CHECK(e[i] != nullptr, "fired events are free again"); }
        CHECK(es.event(0, k_time_ms(1)) == nullptr, "the store does not grow");
        LEGAL(false);
    }
}
HARNESS(h_data) {
    uint32_t u = sym::u32("u");
    float f = sym::f32("f");
    int64_t t = sym::i64("t");
    CHECK(!Event::Data().has_value() && Event::Data().unsigned_value() == 0 && Event::Data().ms().raw() == 0 && Event::Data().s().raw() == 0 && sym::bits(Event::Data().value()) == 0, "no data reads as zero");
    LEGAL(false);
    CHECK(Event::Data(u).unsigned_value() == u, "a number arrives");
    CHECK(sym::bits(Event::Data(f).value()) == sym::bits(f), "a float arrives");
    CHECK(Event::Data(k_time_ms(t)).ms().raw() == t && Event::Data(k_time_s(t)).s().raw() == t, "a time arrives");
    sym_reach("data");
}

struct Count : EventHandler {
    size_t last = 0; int n = 0; uint32_t v = 0;
    Count(EventSystem* s) : EventHandler(s) {}
    void handle_event(const Event& e) override { n++; last = e.id(); v = e.data().unsigned_value(); }
};
HARNESS(h_events_wide) { // more kinds of events, events and handlers than a byte counts
    clock_set(1000);
    const int kinds = 300, events = 255 + (int)sym::pick("events", 3), handlers = 255 + (int)sym::pick("handlers", 2);
    uint64_t heap = sym_live_heap();
    {
        EventSystem es(EventSystem::Config{(size_t)kinds, (size_t)events, (size_t)handlers, false});
        Count a(&es), low(&es);
        static const int ks[3] = {255, 256, 299};
        int kind = ks[sym::pick("kind", 3)];
        for (int i = 0; i < handlers; i++) es.attach(kind, &a);
        es.attach(kind - 256 < 0 ? 3 : kind - 256, &low);
        uint32_t v = sym::u32("data");
        es.trigger(kind, Event::Data(v));
        CHECK(a.n == handlers && a.last == (size_t)kind && a.v == v && low.n == 0, "triggering reaches every handler of the event, once");
        a.n = 0;
        for (int i = 0; i < events; i++) es.schedule(kind - 256 < 0 ? 3 : kind - 256, k_time_ms(10 + i % 3), Event::Data((uint32_t)i));
        es.loop();
        CHECK(low.n == 0, "no event fires early");
        clock_advance(12);
        es.loop();
        CHECK(low.n == events && a.n == 0, "every event fires once");
        es.schedule(kind, k_time_ms(5), Event::Data(v + 1));
        clock_advance(5);
        es.loop();
        CHECK(a.n == handlers && a.v == v + 1 && low.n == events, "fired events are free again");
        sym_reach("wide");
    }
    CHECK(sym_live_heap() == heap, "the event system releases everything");
}

struct Attacher : H {
    EventHandler* other = nullptr;
    size_t kind = 0;
    using H::H;
    void handle_event(const Event& e) override {
        H::handle_event(e);
        if (other) { auto o = other; other = nullptr; evsys()->attach(kind, o); }
    }
};
HARNESS(h_attach) { // a handler attaches another one while it handles an event
    clock_set(1000);
    g_n = 0;
    int before = (int)sym::pick("before", 3), after = (int)sym::pick("after", 3);
    size_t kind = sym::pick("kind", 2);
    bool late = sym::fork("scheduled");
    EventSystem es({2, 2, (size_t)(before + after + 2), false});
    H b0(&es, 0), b1(&es, 1), a0(&es, 3), a1(&es, 4), fresh(&es, 5);
    Attacher at(nullptr, 2);
    at.attach_event_system(&es); // made before its event system
    at.other = &fresh;
    at.kind = kind;
    H* first[] = {&b0, &b1};
    H* last[] = {&a0, &a1};
    for (int i = 0; i < before; i++) es.attach(0, first[i]);
    es.attach(0, &at);
    for (int i = 0; i < after; i++) es.attach(0, last[i]);
    if (kind == 1) es.attach(1, &b0);
    for (int round = 0; round < 2; round++) {
        uint32_t v = sym::u32("data");
        g_n = 0;
        if (late) { es.schedule(0, k_time_ms(5), Event::Data(v)); clock_advance(5); es.loop(); }
        else es.trigger(0, Event::Data(v));
        int want = before + 1 + after, n = g_n;
        bool extra = n == want + 1 && g_log[want].handler == 5; // the fresh one, which is the last
        if (round == 0) CHECK(n == want || (kind == 0 && extra), "each handler gets the event once");
        else CHECK(kind == 0 ? extra : n == want, "each handler gets the event once, also one attached while handling");
        for (int i = 0; i < want && i < n; i++)
            CHECK(g_log[i].handler == (i < before ? i : i == before ? 2 : 3 + i - before - 1) && g_log[i].v == v, "handlers get the event in the order attached");
    }
    if (kind == 1) { g_n = 0; es.trigger(1, Event::Data((uint32_t)7)); CHECK(g_n == 2 && g_log[0].handler == 0 && g_log[1].handler == 5, "handlers get the event in the order attached"); }
    spn::eventsystem::Pipeline p(2);
    CHECK(es.pipeline_as_string() == p.to_string(), "the text of an event system is that of its pending events");
    es.schedule(0, k_time_ms(5));
    p.push(std::make_shared<spn::eventsystem::Future>(k_time_ms(5)));
    CHECK(es.pipeline_as_string() == p.to_string(), "the text of an event system is that of its pending events");
    sym_reach("attached");
}
