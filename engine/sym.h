// Harness API. Under the symbolic engine these calls are intercepted; in a native replay they are implemented
// by native.cpp, which feeds the solver's values back into the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
uint64_t sym_input(const char* name, unsigned bits); // fresh symbolic value, zero-extended
void sym_assume(bool c);                             // restrict to c (stated precondition)
void sym_assert(bool c, const char* msg);            // must hold for every value
void sym_reach(const char* tag);                     // vacuity witness: some path has to get here
uint64_t sym_concretize(uint64_t v);                 // fork into one path per feasible value
void sym_observe(const char* name, uint64_t v);      // compared between engine and native replay
uint64_t sym_live_heap();                            // live heap (objects in the engine, bytes natively)
int sym_is_symbolic();
void sym_stop() __attribute__((noreturn));
void sym_fail(const char* msg);
// text the code under test printed through the platform's standard output
size_t rt_stdout_len();
const char* rt_stdout_data();
void rt_stdout_reset();
}

namespace sym {
inline uint8_t u8(const char* n) { return (uint8_t)sym_input(n, 8); }
inline uint16_t u16(const char* n) { return (uint16_t)sym_input(n, 16); }
inline uint32_t u32(const char* n) { return (uint32_t)sym_input(n, 32); }
inline uint64_t u64(const char* n) { return sym_input(n, 64); }
inline int64_t i64(const char* n) { return (int64_t)sym_input(n, 64); }
inline int32_t i32(const char* n) { return (int32_t)(uint32_t)sym_input(n, 32); }
inline bool flag(const char* n) { return (sym_input(n, 1) & 1) != 0; }
inline float f32(const char* n) { uint32_t b = (uint32_t)sym_input(n, 32); float f; memcpy(&f, &b, 4); return f; }
inline double f64(const char* n) { uint64_t b = sym_input(n, 64); double f; memcpy(&f, &b, 8); return f; }
inline int64_t range(const char* n, int64_t lo, int64_t hi) { // both inclusive, symbolic
    int64_t v = (int64_t)sym_input(n, 64);
    sym_assume(v >= lo && v <= hi);
    return v;
}
inline uint64_t pick(const char* n, uint64_t count) { // 0..count-1, one path each
    uint64_t v = sym_input(n, 8);
    sym_assume(v < count);
    return sym_concretize(v);
}
inline bool fork(const char* n) { return pick(n, 2) == 1; }
inline uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline uint64_t bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
} // namespace sym

#define HARNESS(name) extern "C" void name()
#define CHECK(c, msg) sym_assert((c), msg)
