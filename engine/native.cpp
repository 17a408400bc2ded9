// Native side of the harness API: feeds one recorded assignment to the real, natively compiled code.
// usage: replay HARNESS INPUTFILE     (INPUTFILE: lines "name bits hex")
// exit: 0 ran to the end, 42 assertion failed, 43 assumption not met (not a valid replay), others: crash/sanitizer
#include "sym.h"

#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <streambuf>
#include <string>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
#include <malloc.h>
#endif

struct In { std::string name; unsigned bits; uint64_t v; };
static std::vector<In> g_in;
static size_t g_pos;
struct Capture : std::streambuf { // fixed storage: capturing output never allocates
    char b[8192];
    size_t n = 0;
    int overflow(int c) override { if (c != EOF && n < sizeof(b)) b[n++] = (char)c; return 0; }
    std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k; i++) overflow((unsigned char)s[i]); return k; }
};
static Capture g_out;
static FILE* rep;

static void finish(int code) { fflush(rep); fflush(stdout); fflush(stderr); _exit(code); }

extern "C" {
uint64_t sym_input(const char* name, unsigned bits) {
    uint64_t v = 0;
    if (g_pos < g_in.size()) {
        std::string n = name;
        for (char& c : n) if (c == ' ') c = '_';
        if (g_in[g_pos].name != n) { fprintf(rep, "INPUT-MISMATCH expected %s got %s\n", g_in[g_pos].name.c_str(), name); finish(44); }
        v = g_in[g_pos].v;
    }
    g_pos++;
    return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
void sym_assume(bool c) { if (!c) { fprintf(rep, "ASSUMPTION-NOT-MET\n"); finish(43); } }
void sym_assert(bool c, const char* msg) { if (!c) { fprintf(rep, "ASSERT-FAILED %s\n", msg); finish(42); } }
void sym_reach(const char*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char* name, uint64_t v) { fprintf(rep, "OBS %s %llx\n", name, (unsigned long long)v); }
uint64_t sym_live_heap() {
#ifdef HAVE_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
#endif
}
int sym_is_symbolic() { return 0; }
void sym_stop() { fprintf(rep, "DONE\n"); finish(0); }
void sym_fail(const char* msg) { fprintf(rep, "ASSERT-FAILED %s\n", msg); finish(42); }
size_t rt_stdout_len() { return g_out.n; }
const char* rt_stdout_data() { return g_out.b; }
void rt_stdout_reset() { g_out.n = 0; }
}

int main(int argc, char** argv) {
    rep = stdout;
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    char name[256];
    unsigned bits;
    unsigned long long v;
    while (fscanf(f, "%255s %u %llx", name, &bits, &v) == 3) g_in.push_back({name, bits, v});
    if (!feof(f)) { fprintf(stderr, "malformed input file\n"); return 2; }
    fclose(f);
    auto h = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    setenv("TZ", "UTC", 1);
    std::set_terminate([] {
        fprintf(rep, "TERMINATE");
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { fprintf(rep, " %s", x.what()); } catch (...) {} }
        fprintf(rep, "\n");
        finish(45);
    });
    alarm(20); // a hang ends with SIGALRM
    std::cout.rdbuf(&g_out);
    h();
    fprintf(rep, "DONE\n");
    finish(0);
}
