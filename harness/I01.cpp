//@ bounds input buffers of 1..4 bytes; contents starting at every offset; 3 (thorough 4) operations in any order out of arrival of 1 or 3 arbitrary bytes which are pulled in (where either of the first two reads may fail), pulling in what is left, taking, viewing and dropping a line, for every content; a host stream of 1..4 bytes; also lines of 254..258 and 310 bytes through a buffer of 300, and one of 66000 bytes through a buffer of 66010
//@ assume the delimiter set is the default one (carriage return, line feed)
//@ outside other sizes of buffers
//@ harness h_input parts=8 pdepth=6
//@ harness h_mock parts=2
//@ harness h_input_wide parts=2 steps=60000000
//@ harness h_input_huge parts=2 pdepth=1 steps=60000000
#include "stream.h"
using namespace spn::io;
typedef Seq<uint8_t, 40> Ref;
static bool delim(uint8_t c) { return (c == '\r') | (c == '\n'); }
// length of the first line including its delimiter, 0 without one
static int line(const Ref& r) { for (int i = 0; i < r.n; i++) if (delim(r.v[i])) return i + 1; return 0; }

HARNESS(h_input) {
    int cap = 1 + (int)sym::pick("capacity", 4);
    auto fake = std::make_shared<FakeStream>();
    BufferedStream s(fake, BufferedStream::Config{(size_t)cap, 1});
    Ref r; // what the buffer should hold
    int skip = (int)sym::pick("offset", cap); // any offset of the contents
    for (int i = 0; i < skip; i++) fake->in[fake->in_n++] = '\n';
    s.pull_in_data();
    for (int i = 0; i < skip; i++) s.drop_next_line();
    for (int k = 0; k < QT(3, 4); k++) {
        int op = (int)sym::pick("op", 5);
        switch (op) {
        case 0: // bytes arrive
        case 1: {
            if (op == 0) {
                int n = sym::fork("many") ? 3 : 1;
                for (int i = 0; i < n; i++) fake->in[fake->in_n++] = sym::u8("byte");
            }
            fake->fail_read = op == 0 ? (int)sym::pick("read failure", 3) - 1 : -1;
            int fail = fake->fail_read, at = fake->in_at, got = 0;
            while (at < fake->in_n) {
                if (r.n == cap && line(r)) { sym_reach("stops in front of a complete line"); break; }
                if (fail == 0) break;
                if (fail > 0) fail--;
                if (r.n == cap) { r.remove(0); sym_reach("a line longer than the buffer"); }
                r.push_back(fake->in[at++]);
                got++;
            }
            CHECK(s.pull_in_data() == (size_t)got, "pulling reports how many bytes were read");
            CHECK(fake->in_at == at, "pulling stops exactly when a complete line would be lost");
            fake->fail_read = -1;
            break;
        }
        case 2: {
            char b[8];
            for (auto& x : b) x = 'U';
            int max = 1 + (int)sym::pick("max", cap), len = line(r);
            size_t n = s.get_next_line(b, max);
            if (len == 0 || len > max) CHECK(n == 0 && b[0] == 'U', "no line, or one that does not fit, yields nothing");
            else {
                CHECK(n == (size_t)len - 1 && b[n] == 0, "taking a line reports its length");
                for (int i = 0; i < len; i++) { uint8_t c = r.remove(0); CHECK(i == len - 1 || (uint8_t)b[i] == c, "a line arrives byte for byte"); }
            }
            CHECK(b[max] == 'U', "nothing is written past the given length");
            break;
        }
        case 3: {
            auto v = s.get_next_line_view();
            int len = line(r);
            CHECK(v.has_value() == (len > 0), "a view is given exactly when a line is available");
            if (len) {
                CHECK(v->size() == (size_t)len - 1, "the view covers the line without its delimiter");
                for (int i = 0; i + 1 < len; i++) CHECK((uint8_t)(*v)[i] == r.v[i], "the view shows the line");
            }
            break;
        }
        case 4: {
            int len = line(r);
            CHECK(s.drop_next_line() == (len > 0), "dropping succeeds exactly when a line is available");
            for (int i = 0; i < len; i++) r.remove(0);
            break;
        }
        }
        CHECK(s.has_line() == (line(r) > 0) && s.length_of_next_line() == (size_t)line(r), "a line is reported exactly when one is complete");
        CHECK(s.input_buffer_space_used() == (size_t)r.n && s.input_buffer_space_left() == (size_t)(cap - r.n), "the buffer accounts for its space");
    }
}
HARNESS(h_mock) { // the stream used on the host: a pair of bounded queues
    int ci = 1 + (int)sym::pick("in", 4), co = 1 + (int)sym::pick("out", 4);
    MockStream m(MockStream::Config{(size_t)ci, (size_t)co});
    Ref in, out;
    for (int k = 0; k < QT(4, 5); k++) {
        switch (sym::pick("op", 4)) {
        case 0: { // the world sends
            std::vector<uint8_t> v;
            int n = (int)sym::pick("n", 4);
            for (int i = 0; i < n; i++) { v.push_back(sym::u8("byte")); if (in.n < ci) in.push_back(v[i]); }
            m.inject_bytestream(v);
            break;
        }
        case 1: { // the program reads
            uint8_t b = 0;
            bool ok = m.read(b);
            CHECK(ok == (in.n > 0), "reading succeeds while bytes are available");
            if (ok) CHECK(b == in.remove(0), "bytes are read in order");
            break;
        }
        case 2: { // the program writes
            uint8_t b = sym::u8("byte");
            bool ok = m.write(b);
            CHECK(ok == (out.n < co), "writing succeeds while there is room");
            if (ok) out.push_back(b);
            break;
        }
        case 3: { // the world receives
            auto v = m.extract_bytestream();
            CHECK(v && v->size() == (size_t)out.n, "everything written is received");
            for (int i = 0; i < out.n; i++) CHECK((*v)[i] == out.v[i], "bytes are received in order");
            out.n = 0;
            sym_reach("received");
            break;
        }
        }
        CHECK(m.available() == (size_t)in.n && m.available_for_write() == (size_t)(co - out.n), "the stream tells what can be read and written");
    }
}

HARNESS(h_input_wide) { // lines longer than a byte counts
    const int cap = 300;
    static WideStream* w;
    auto fake = std::make_shared<WideStream>();
    w = fake.get();
    BufferedStream s(fake, BufferedStream::Config{(size_t)cap, 1});
    static const int skips[4] = {0, 40, 100, 299};
    int skip = skips[sym::pick("offset", 4)];
    for (int i = 0; i < skip; i++) w->in[w->in_n++] = '\n';
    s.pull_in_data();
    for (int i = 0; i < skip; i++) s.drop_next_line();
    CHECK(s.input_buffer_space_used() == 0, "the buffer accounts for its space");
    int len = 254 + (int)sym::pick("length", 5), at = w->in_n, extra = 5;
    bool over = sym::fork("longer than the buffer");
    if (over) len = 310;
    for (int i = 0; i < len; i++) { w->in[w->in_n++] = i % 100 == 54 ? sym::u8("c") : 'a' + i % 26; sym_assume(!delim(w->in[w->in_n - 1])); }
    w->in[w->in_n++] = '\r';
    for (int i = 0; i < extra; i++) w->in[w->in_n++] = 'x';
    int first = at + (over ? len + 1 - cap : 0), n = over ? cap : len + 1; // what is left of the line
    s.pull_in_data();
    CHECK(s.has_line() && s.length_of_next_line() == (size_t)n, "a line is reported exactly when one is complete");
    CHECK(s.input_buffer_space_used() == (size_t)(over ? cap : n + extra) && s.input_buffer_space_left() == (size_t)(over ? 0 : cap - n - extra), "the buffer accounts for its space");
    static char b[400];
    switch (sym::pick("op", 3)) {
    case 0: {
        auto v = s.get_next_line_view();
        CHECK(v && v->size() == (size_t)n - 1, "the view covers the line without its delimiter");
        for (int i = 0; i + 1 < n; i++) CHECK((uint8_t)(*v)[i] == w->in[first + i], "the view shows the line");
        CHECK(s.drop_next_line(), "dropping succeeds exactly when a line is available");
        break;
    }
    case 1: {
        for (auto& x : b) x = 'U';
        CHECK(s.get_next_line(b, 400) == (size_t)n - 1 && b[n - 1] == 0 && b[n] == 'U', "taking a line reports its length");
        for (int i = 0; i + 1 < n; i++) CHECK((uint8_t)b[i] == w->in[first + i], "a line arrives byte for byte");
        break;
    }
    case 2: CHECK(s.drop_next_line(), "dropping succeeds exactly when a line is available"); break;
    }
    s.pull_in_data();
    CHECK(!s.has_line() && s.input_buffer_space_used() == (size_t)extra, "a line is taken once");
    w->in[w->in_n++] = '\n';
    s.pull_in_data();
    auto v = s.get_next_line_view();
    CHECK(v && *v == std::string_view("xxxxx"), "the next line is next");
    sym_reach("wide");
}

HARNESS(h_input_huge) { // lines longer than a half word counts
    const int N = 66000;
    static HugeStream* w;
    static char b[N + 10];
    auto fake = std::make_shared<HugeStream>();
    w = fake.get();
    bool over = sym::fork("longer than the buffer");
    int cap = over ? N - 2 : N + 10, n = over ? cap : N + 1;
    BufferedStream s(fake, BufferedStream::Config{(size_t)cap, 1});
    for (int i = 0; i < N; i++) w->in[w->in_n++] = 'a' + i % 26;
    uint8_t c = sym::u8("c");
    sym_assume(!delim(c));
    w->in[N - 1] = c;
    w->in[w->in_n++] = '\n';
    w->in[w->in_n++] = 'x';
    CHECK(s.pull_in_data() == (size_t)(over ? N + 1 : N + 2), "pulling reports how many bytes were read");
    CHECK(s.length_of_next_line() == (size_t)n && s.input_buffer_space_used() == (size_t)(over ? cap : N + 2), "a line is reported exactly when one is complete");
    CHECK(s.get_next_line(b, N + 10) == (size_t)n - 1 && b[0] == 'a' + (N + 1 - n) % 26 && (uint8_t)b[n - 2] == c && b[n - 1] == 0, "a line arrives byte for byte");
    s.pull_in_data();
    CHECK(!s.has_line() && s.input_buffer_space_used() == 1, "a line is taken once");
    sym_reach("huge");
}
