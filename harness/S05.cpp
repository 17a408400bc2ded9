//@ bounds pools of 1..4 (thorough 1..5) objects; 7 (thorough 9) arbitrary acquire / release operations in any order, from a pool in any lookup position; object contents symbolic; also pools of 254..258 (thorough 261) objects, all taken
//@ assume pool is fully populated before objects are acquired (precondition); acquired objects are released before the pool is destroyed or may outlive it
//@ outside other sizes of pools, copying a pool, use from several threads
//@ harness h_pool_cycle parts=4 pdepth=4
//@ harness h_pool_lifetime
//@ harness h_pool_wide steps=40000000
#include "ref.h"
#include <memory>
#include "spine/structure/pool.hpp"
using spn::structure::Pool;
struct Obj { uint32_t tag; };
static const int MAXN = QT(4, 5);

HARNESS(h_pool_cycle) {
    int n = 1 + sym::pick("n", MAXN);
    uint64_t heap = sym_live_heap();
    {
        Pool<Obj> pool(n);
        for (int i = 0; i < n; i++) {
            CHECK(!pool.is_fully_populated(), "a pool is not fully populated before its last object");
            if (i % 2) pool.populate(Obj{(uint32_t)i}); else pool.populate(new Obj{(uint32_t)i});
            CHECK(pool.size() == (size_t)i + 1, "the pool counts its objects");
        }
        CHECK(pool.is_fully_populated(), "a pool with all its objects is fully populated");
        {
            std::shared_ptr<Obj> held[8];
            int nheld = 0;
            for (int k = 0; k < QT(7, 9); k++) {
                if (sym::fork("acquire")) {
                    auto p = pool.acquire();
                    CHECK((p != nullptr) == (nheld < n), "acquiring succeeds exactly when an object is free");
                    if (p) {
                        for (int i = 0; i < n; i++) CHECK(held[i] != p, "an object in use is never handed out again");
                        CHECK(p->tag < (uint32_t)n, "the pool hands out its own objects");
                        for (int i = 0; i < n; i++) if (!held[i]) { held[i] = p; break; }
                        nheld++;
                        if (nheld == n) sym_reach("pool exhausted");
                    }
                } else {
                    sym_assume(nheld > 0);
                    int i = sym::pick("which", n);
                    sym_assume(held[i] != nullptr);
                    held[i].reset();
                    nheld--;
                }
                CHECK(pool.size() == (size_t)n, "acquiring and releasing does not change the pool's size");
            }
        }
    }
    CHECK(sym_live_heap() == heap, "destroying the pool gives all memory back");
}

HARNESS(h_pool_lifetime) {
    int n = 1 + sym::pick("n", MAXN);
    uint64_t heap = sym_live_heap();
    {
        std::shared_ptr<Obj> out;
        {
            Pool<Obj> pool(n);
            for (int i = 0; i < n; i++) pool.populate(std::make_shared<Obj>(Obj{(uint32_t)i}));
            int t = sym::pick("taken", n + 1);
            for (int i = 0; i < t; i++) out = pool.acquire();
            int d = sym::pick("depopulated", n + 1);
            for (int i = 0; i < d; i++) { std::shared_ptr<Obj> p = std::move(pool.depopulate()); CHECK(p && p->tag == (uint32_t)i, "objects leave the pool in the order they came"); }
            CHECK(pool.size() == (size_t)(n - d), "the pool counts its objects");
            if (t == 0) out = nullptr;
        }
        if (out) { CHECK(out->tag < (uint32_t)n && out.use_count() == 1, "an object in use survives the pool and belongs to its user"); sym_reach("outlived"); }
    }
    CHECK(sym_live_heap() == heap, "destroying the pool gives all memory back");
}

HARNESS(h_pool_wide) { // pools of more objects than a byte counts
    int n = 254 + (int)sym::pick("n", QT(5, 8));
    uint64_t heap = sym_live_heap();
    {
        Pool<Obj> pool(n);
        for (int i = 0; i < n; i++) { CHECK(!pool.is_fully_populated(), "a pool is not fully populated before its last object"); pool.populate(new Obj{(uint32_t)i}); CHECK(pool.size() == (size_t)i + 1, "the pool counts its objects"); }
        CHECK(pool.is_fully_populated(), "a pool with all its objects is fully populated");
        std::shared_ptr<Obj> held[264];
        static bool seen[264];
        for (int i = 0; i < n; i++) seen[i] = false;
        for (int i = 0; i < n; i++) {
            held[i] = pool.acquire();
            CHECK(held[i] != nullptr, "acquiring succeeds exactly when an object is free");
            CHECK(held[i]->tag < (uint32_t)n && !seen[held[i]->tag], "an object in use is never handed out again");
            seen[held[i]->tag] = true;
        }
        bool ask = sym::fork("ask in vain"); // which makes the pool look from the front next time
        if (ask) CHECK(pool.acquire() == nullptr, "acquiring succeeds exactly when an object is free");
        sym_reach("exhausted");
        for (int k = 0; k < 2; k++) { // any one that becomes free is found
            int i = sym::fork("late") ? n - 1 - (int)sym::pick("which", 3) : (int)sym::pick("which", 3);
            uint32_t tag = held[i]->tag;
            held[i].reset();
            held[i] = pool.acquire();
            CHECK(held[i] && held[i]->tag == tag, "the object that was released is handed out");
            if (ask) CHECK(pool.acquire() == nullptr, "acquiring succeeds exactly when an object is free");
        }
        for (int i = 0; i < n; i++) held[i].reset();
        CHECK(pool.size() == (size_t)n, "acquiring and releasing does not change the pool's size");
    }
    CHECK(sym_live_heap() == heap, "destroying the pool gives all memory back");
}
