//@ bounds capacity 1..4 (thorough 1..5); every reachable read offset; contents are arbitrary bytes, so every placement of delimiters; delimiter sets "\r\n" and one arbitrary byte; 2 (1 at the largest capacity) consecutive line operations, interleaved with arbitrary pushes; also lines of 254..258 bytes in a buffer of 320 at 5 offsets; one line of 66000 bytes in a buffer of 66010
//@ assume capacity at least 1; the delimiter set outlives the buffer
//@ outside other capacities; passing a wrong pre-computed line length
//@ harness h_line_ops parts=8 pdepth=4 ttime=600
//@ harness h_line_wide parts=2 steps=40000000
//@ harness h_line_huge steps=60000000
#include "ref.h"
#include "spine/structure/linebuffer.hpp"
using spn::structure::LineBuffer;
typedef Seq<char, 16> Ref;
static const int MAXCAP = QT(4, 5);
static char D[2];
static int ND;

static bool isDelim(char c) { return c == D[0] || (ND == 2 && c == D[1]); }
static int nextLen(const Ref& r) { // including the delimiter, 0: none
    for (int i = 0; i < r.n; i++) if (isDelim(r.v[i])) return i + 1;
    return 0;
}
static void same(LineBuffer& b, const Ref& r) {
    CHECK(b.used_space() == (size_t)r.n, "the buffer holds exactly the bytes not yet taken");
    for (int i = 0; i < r.n; i++) { char v = 0; CHECK(b.peek_at(v, i) && v == r.v[i], "bytes stay in arrival order"); }
}

HARNESS(h_line_ops) {
    int cap = 1 + sym::pick("cap", MAXCAP);
    LineBuffer b(cap);
    if (sym::fork("crlf")) { D[0] = '\r'; D[1] = '\n'; ND = 2; }
    else { D[0] = (char)sym::u8("delim"); ND = 1; b.set_delimiters(std::string_view(D, 1)); }
    Ref r;
    int off = sym::pick("offset", cap), n = sym::pick("count", cap + 1);
    for (int i = 0; i < off; i++) { b.push('x'); b.pop(); }
    for (int i = 0; i < n; i++) { char c = (char)sym::u8("c"); b.push(c); r.push_back(c); }
    for (int k = 0; k < (cap == MAXCAP ? 1 : 2); k++) {
        int len = nextLen(r);
        CHECK(b.has_line() == (len > 0), "a line is available exactly when a delimiter has arrived");
        CHECK(b.length_of_next_line() == (size_t)len, "the next line ends at the first delimiter");
        bool known = sym::fork("known length");
        std::optional<size_t> dl = known ? std::optional<size_t>(len) : std::nullopt;
        switch (sym::pick("op", 4)) {
        case 0: {
            auto v = b.get_next_line_view(dl);
            CHECK(v.has_value() == (len > 0), "a view is given exactly when a line is available");
            if (v && len) {
                CHECK(v->size() == (size_t)len - 1, "the view covers the line without its delimiter");
                for (int i = 0; i + 1 < len; i++) CHECK((*v)[i] == r.v[i], "the view shows the bytes of the line");
                sym_reach("viewed a line");
            }
            break;
        }
        case 1: {
            char out[16];
            for (int i = 0; i < 16; i++) out[i] = 0x55;
            int max = sym::pick("max", cap + 2);
            size_t g = b.get_next_line(out, max, dl);
            if (len == 0 || len > max) CHECK(g == 0, "no line, or one that does not fit, yields nothing");
            else {
                CHECK(g == (size_t)len - 1, "taking a line reports its length");
                for (int i = 0; i + 1 < len; i++) CHECK(out[i] == r.v[i], "the taken line holds the bytes of the line");
                CHECK(out[len - 1] == 0, "the taken line is terminated");
                for (int i = 0; i < len; i++) r.remove(0);
                sym_reach("took a line");
            }
            for (int i = max; i < 16; i++) CHECK(out[i] == 0x55, "nothing is written past the given length");
            break;
        }
        case 2: {
            bool ok = b.drop_next_line(dl);
            CHECK(ok == (len > 0), "dropping succeeds exactly when a line is available");
            for (int i = 0; i < len; i++) r.remove(0);
            break;
        }
        case 3: {
            int m = sym::pick("m", 3);
            char t[2] = {(char)sym::u8("p"), (char)sym::u8("p")};
            size_t w = b.push(std::string_view(t, m));
            int want = m < cap - r.n ? m : cap - r.n;
            CHECK(w == (size_t)want, "pushing text reports how much was stored");
            for (int i = 0; i < want; i++) r.push_back(t[i]);
            break;
        }
        }
        same(b, r);
    }
}

HARNESS(h_line_wide) { // lines longer than what a byte counts
    static const int CAP = 320;
    static char ref[700], out[700];
    LineBuffer b(CAP);
    static const int offs[5] = {0, 10, 64, 200, 319};
    int off = offs[sym::pick("offset", 5)];
    for (int i = 0; i < off; i++) { b.push('x'); b.pop(); }
    int end = 254 + (int)sym::pick("length", 5), n = end + 1 + 20;
    for (int i = 0; i < n; i++) ref[i] = i < 250 || i > 262 ? 'a' + i % 26 : (char)sym::u8("c");
    ref[end] = sym::fork("cr") ? '\r' : '\n';
    for (int i = 0; i < end; i++) sym_assume((ref[i] != '\r') & (ref[i] != '\n'));
    CHECK(b.push(std::string_view(ref, n)) == (size_t)n, "pushing text reports how much was stored");
    CHECK(b.has_line() && b.length_of_next_line() == (size_t)end + 1, "the next line ends at the first delimiter");
    int left = n;
    switch (sym::pick("op", 4)) {
    case 0: {
        auto v = b.get_next_line_view();
        CHECK(v && v->size() == (size_t)end, "the view covers the line without its delimiter");
        for (int i = 0; i < end; i++) CHECK((*v)[i] == ref[i], "the view shows the bytes of the line");
        sym_reach("viewed");
        break;
    }
    case 1: {
        for (int i = 0; i < 700; i++) out[i] = 'U';
        CHECK(b.get_next_line(out, end + 1) == (size_t)end, "taking a line reports its length");
        for (int i = 0; i < end; i++) CHECK(out[i] == ref[i], "the taken line holds the bytes of the line");
        CHECK(out[end] == 0 && out[end + 1] == 'U', "the taken line is terminated");
        left = n - end - 1;
        sym_reach("taken");
        break;
    }
    case 2: CHECK(b.drop_next_line(), "dropping succeeds exactly when a line is available"); left = n - end - 1; break;
    case 3: CHECK(b.get_next_line(out, end) == 0, "a line that does not fit yields nothing"); break;
    }
    CHECK(b.used_space() == (size_t)left, "the buffer holds exactly the bytes not yet taken");
    for (int i = 0; i < left; i++) { char v = 0; CHECK(b.peek_at(v, i) && v == ref[n - left + i], "bytes stay in arrival order"); }
}

HARNESS(h_line_huge) { // lines longer than what a half word counts
    const int N = 66000;
    static char text[N + 1], out[N + 2];
    LineBuffer b(N + 10);
    int off = sym::fork("offset") ? 2 : 0;
    for (int i = 0; i < off; i++) { b.push('x'); b.pop(); }
    for (int i = 0; i < N; i++) text[i] = 'a' + i % 26;
    char c = (char)sym::u8("c");
    sym_assume((c != '\r') & (c != '\n'));
    text[N - 1] = c;
    CHECK(b.push(std::string_view(text, N)) == (size_t)N, "pushing text reports how much was stored");
    CHECK(!b.has_line(), "a line is available exactly when a delimiter has arrived");
    b.push('\n');
    CHECK(b.length_of_next_line() == (size_t)N + 1, "the next line ends at the first delimiter");
    if (sym::fork("take")) {
        CHECK(b.get_next_line(out, N) == 0, "a line that does not fit yields nothing");
        CHECK(b.get_next_line(out, N + 1) == (size_t)N && out[N] == 0 && out[0] == 'a' && out[65535] == text[65535] && out[65536] == text[65536] && out[N - 1] == c, "the taken line holds the bytes of the line");
    } else {
        auto v = b.get_next_line_view();
        CHECK(v && v->size() == (size_t)N && (*v)[0] == 'a' && (*v)[65535] == text[65535] && (*v)[N - 1] == c, "the view covers the line without its delimiter");
        CHECK(b.drop_next_line(), "dropping succeeds exactly when a line is available");
    }
    CHECK(b.empty(), "the buffer holds exactly the bytes not yet taken");
    sym_reach("huge");
}
