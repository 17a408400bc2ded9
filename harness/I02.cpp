//@ bounds output buffers of 1..4 bytes; contents starting at every offset; 2 (thorough 3) operations in any order out of writing 1..3 arbitrary bytes (with or without rollover), flushing into a stream with room for 0..4 bytes in which any write may fail, and dropping from either end; also writes of 254..257 bytes into a buffer of 300 and flushes of up to 300, and of 66000 bytes
//@ assume none
//@ outside other sizes of buffers
//@ harness h_output parts=8 pdepth=6
//@ harness h_output_wide parts=2 steps=60000000
//@ harness h_output_huge steps=60000000
#include "stream.h"
using namespace spn::io;
typedef Seq<uint8_t, 40> Ref;
HARNESS(h_output) {
    int cap = 1 + (int)sym::pick("capacity", 4);
    auto fake = std::make_shared<FakeStream>();
    BufferedStream s(fake, BufferedStream::Config{1, (size_t)cap});
    Ref r, out;
    int skip = (int)sym::pick("offset", cap); // any offset of the contents
    for (int i = 0; i < skip; i++) s.buffered_write((uint8_t)'z');
    s.output_buffer_drop_first(skip);
    int n = (int)sym::pick("held", cap + 1);
    for (int i = 0; i < n; i++) { uint8_t b = sym::u8("byte"); s.buffered_write(b); r.push_back(b); }
    for (int k = 0; k < QT(2, 3); k++) {
        switch (sym::pick("op", 5)) {
        case 0: {
            uint8_t b = sym::u8("byte");
            bool roll = sym::fork("rollover");
            size_t n = s.buffered_write(b, roll);
            CHECK(n == (size_t)(roll || r.n < cap), "writing reports how many bytes were stored");
            if (n) { if (r.n == cap) r.remove(0); r.push_back(b); }
            break;
        }
        case 1: {
            char b[3] = {(char)sym::u8("byte"), (char)sym::u8("byte"), (char)sym::u8("byte")};
            int len = 2 + (int)sym::pick("length", 2);
            bool roll = sym::fork("rollover");
            size_t n = s.buffered_write(b, len, roll);
            int want = 0;
            for (; want < len && (roll || r.n < cap); want++) { if (r.n == cap) { r.remove(0); sym_reach("rolled over"); } r.push_back((uint8_t)b[want]); }
            CHECK(n == (size_t)want, "writing reports how many bytes were stored");
            break;
        }
        case 2: {
            std::string_view v("ab");
            size_t n = s.buffered_write(v);
            int want = 0;
            for (; want < 2 && r.n < cap; want++) r.push_back((uint8_t)v[want]);
            CHECK(n == (size_t)want, "writing reports how many bytes were stored");
            break;
        }
        case 3: {
            fake->room = (int)sym::pick("room", 5);
            fake->fail_write = (int)sym::pick("write failure", 3) - 1;
            int sent = 0, can = fake->room < r.n ? fake->room : r.n;
            if (fake->fail_write >= 0 && fake->fail_write < can) { can = fake->fail_write; sym_reach("a write fails"); }
            while (sent < can) { out.push_back(r.remove(0)); sent++; }
            CHECK(s.push_out_data() == (size_t)sent, "flushing reports how many bytes were written");
            fake->fail_write = -1;
            fake->room = 0;
            break;
        }
        case 4: {
            int n = (int)sym::pick("n", 3);
            bool last = sym::fork("last");
            size_t got = last ? s.output_buffer_drop_last(n) : s.output_buffer_drop_first(n);
            int want = n < r.n ? n : r.n;
            CHECK(got == (size_t)want, "dropping reports how many bytes went");
            for (int i = 0; i < want; i++) r.remove(last ? r.n - 1 : 0);
            break;
        }
        }
        CHECK(s.output_buffer_space_used() == (size_t)r.n && s.output_buffer_space_left() == (size_t)(cap - r.n), "the buffer accounts for its space");
        CHECK(fake->out_n == out.n, "exactly what was flushed is written");
        for (int i = 0; i < out.n && i < fake->out_n; i++) CHECK(fake->out[i] == out.v[i], "bytes are written in order, none lost or repeated");
    }
    fake->room = 8;
    while (r.n) out.push_back(r.remove(0));
    s.push_out_data();
    CHECK(fake->out_n == out.n && s.output_buffer_space_used() == 0, "everything still held can be flushed");
    for (int i = 0; i < out.n && i < fake->out_n; i++) CHECK(fake->out[i] == out.v[i], "bytes are written in order, none lost or repeated");
}

HARNESS(h_output_wide) { // more bytes than a byte counts
    const int cap = 300;
    static WideStream* w;
    static uint8_t ref[800], buf[400];
    auto fake = std::make_shared<WideStream>();
    w = fake.get();
    BufferedStream s(fake, BufferedStream::Config{1, (size_t)cap});
    static const int skips[3] = {0, 44, 299};
    int skip = skips[sym::pick("offset", 3)], lo = 0, hi = 0;
    for (int i = 0; i < skip; i++) s.buffered_write((uint8_t)'z');
    s.output_buffer_drop_first(skip);
    int n = sym::fork("some held") ? 100 : 0;
    for (int i = 0; i < n; i++) { ref[hi++] = (uint8_t)(i * 3); s.buffered_write((uint8_t)(i * 3)); }
    int len = 254 + (int)sym::pick("length", 4);
    bool roll = sym::fork("rollover");
    for (int i = 0; i < len; i++) buf[i] = i % 64 == 62 ? sym::u8("b") : (uint8_t)(i * 7);
    size_t got = s.buffered_write((const char*)buf, len, roll);
    int want = roll || len <= cap - n ? len : cap - n;
    CHECK(got == (size_t)want, "writing reports how many bytes were stored");
    for (int i = 0; i < want; i++) { if (hi - lo == cap) lo++; ref[hi++] = buf[i]; }
    CHECK(s.output_buffer_space_used() == (size_t)(hi - lo) && s.output_buffer_space_left() == (size_t)(cap - hi + lo), "the buffer accounts for its space");
    static const int rooms[5] = {255, 256, 257, 600, 10};
    int room = rooms[sym::pick("room", 5)];
    int out = lo;
    w->room = room;
    int can = room < hi - lo ? room : hi - lo;
    CHECK(s.push_out_data() == (size_t)can, "flushing reports how many bytes were written");
    lo += can;
    CHECK(w->out_n == can && s.output_buffer_space_used() == (size_t)(hi - lo), "exactly what was flushed is written");
    int d = (int)sym::pick("drop", 3) * 128;
    int w0 = d < hi - lo ? d : hi - lo;
    CHECK((sym::fork("last") ? s.output_buffer_drop_last(d) : (lo += w0, hi += w0, s.output_buffer_drop_first(d))) == (size_t)w0, "dropping reports how many bytes went");
    hi -= w0;
    for (int i = 0; i < can; i++) CHECK(w->out[i] == ref[out + i], "bytes are written in order, none lost or repeated");
    w->room = 600;
    CHECK(s.push_out_data() == (size_t)(hi - lo) && s.output_buffer_space_used() == 0, "everything still held can be flushed");
    for (int i = 0; i < hi - lo; i++) CHECK(w->out[can + i] == ref[lo + i], "bytes are written in order, none lost or repeated");
    sym_reach("wide");
}

HARNESS(h_output_huge) { // more bytes than a half word counts
    const int N = 66000;
    static HugeStream* w;
    static char buf[N];
    auto fake = std::make_shared<HugeStream>();
    w = fake.get();
    BufferedStream s(fake, BufferedStream::Config{1, (size_t)N});
    for (int i = 0; i < N; i++) buf[i] = (char)(i * 7);
    uint8_t c = sym::u8("c");
    buf[N - 1] = (char)c;
    if (sym::fork("rollover")) { s.buffered_write('z'); CHECK(s.buffered_write(buf, N, true) == (size_t)N, "writing reports how many bytes were stored"); }
    else CHECK(s.buffered_write(buf, N) == (size_t)N && s.buffered_write('z') == 0, "writing reports how many bytes were stored");
    CHECK(s.output_buffer_space_used() == (size_t)N && s.output_buffer_space_left() == 0, "the buffer accounts for its space");
    w->room = N + 1;
    CHECK(s.push_out_data() == (size_t)N && w->out_n == N, "flushing reports how many bytes were written");
    CHECK(w->out[0] == 0 && w->out[65535] == (uint8_t)buf[65535] && w->out[65536] == (uint8_t)buf[65536] && w->out[N - 1] == c, "bytes are written in order, none lost or repeated");
    sym_reach("huge");
}
