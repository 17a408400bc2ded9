//@ bounds input and output buffers of 2..4 (thorough 5) bytes with arbitrary content at every offset around the end of the storage; 3 (thorough 4) actions within a transaction out of replying with 1 or 2 arbitrary bytes, pulling more input and moving the transaction, ended by commit, abort, destruction or by being moved away; also lines and replies of 254..257 bytes in buffers of 600, and replies of 66000 bytes
//@ assume one transaction is open at a time, and while it is open nobody else writes, flushes or takes lines
//@ outside assigning over a transaction that is still open
//@ harness h_transaction parts=8 pdepth=6
//@ harness h_transaction_wide parts=2 steps=60000000
//@ harness h_transaction_huge steps=60000000
#include "stream.h"
using namespace spn::io;
typedef Seq<uint8_t, 40> Ref;
static bool delim(uint8_t c) { return (c == '\r') | (c == '\n'); }
static int line(const Ref& r) { for (int i = 0; i < r.n; i++) if (delim(r.v[i])) return i + 1; return 0; }
static void pull(BufferedStream& s, FakeStream& f, Ref& in, int cap) {
    while (f.in_at + 0 < f.in_n && !(in.n == cap && line(in))) {
        if (in.n == cap) in.remove(0);
        in.push_back(f.in[f.in_at + 0]);
        f.in_at++;
    }
}
HARNESS(h_transaction) {
    int cap = 2 + (int)sym::pick("capacity", QT(3, 4));
    auto fake = std::make_shared<FakeStream>();
    BufferedStream s(fake, BufferedStream::Config{(size_t)cap, (size_t)cap});
    Ref in, out;
    // any offset of the contents
    int skip = (int)sym::pick("offset", cap);
    for (int i = 0; i < skip; i++) { fake->in[fake->in_n++] = '\n'; s.buffered_write((uint8_t)'z'); }
    s.pull_in_data();
    for (int i = 0; i < skip; i++) s.drop_next_line();
    s.output_buffer_drop_first(skip);
    // something else in front in the output
    if (sym::fork("earlier output")) { uint8_t e = sym::u8("earlier"); s.buffered_write(e); out.push_back(e); }
    auto arrive = [&] {
        int at = fake->in_at;
        pull(s, *fake, in, cap); // reference
        int end = fake->in_at;
        fake->in_at = at;
        s.pull_in_data();
        CHECK(fake->in_at == end, "pulling never overwrites a complete line");
    };
    int n = 1 + (int)sym::pick("bytes", cap + 1);
    for (int i = 0; i < n; i++) fake->in[fake->in_n++] = sym::u8("byte");
    arrive();
    bool has = line(in) > 0;
    {
        auto t = s.new_transaction();
        CHECK(t.has_value() == has, "a transaction starts exactly when a line is available");
        if (!has) { sym_reach("no line"); return; }
        int len = line(in), queued = 0;
        bool open = true;
        auto shows = [&](const Transaction& x) {
            CHECK(!x.is_finalized(), "a transaction is open until it is ended");
            CHECK(x.incoming().size() == (size_t)len - 1, "a transaction shows the line that caused it");
            for (int i = 0; i + 1 < len; i++) CHECK((uint8_t)x.incoming()[i] == in.v[i], "a transaction shows the line that caused it");
            CHECK(x.outgoing_space_used() == (size_t)queued && x.outgoing_space_left() == (size_t)(cap - out.n), "a transaction accounts for its reply");
        };
        shows(*t);
        for (int k = 0; k < QT(3, 4); k++) {
            switch (sym::pick("act", 4)) {
            case 0: {
                char c = (char)sym::u8("reply");
                size_t got = t->outgoing(c);
                LEGAL(out.n < cap);
                CHECK(got == (out.n < cap ? 1u : 0u), "a reply that fits is queued, and no other");
                if (out.n < cap) { out.push_back((uint8_t)c); queued++; }
                break;
            }
            case 1: {
                char c[2] = {(char)sym::u8("reply"), (char)sym::u8("reply")};
                size_t got = t->outgoing(c, 2);
                int want = cap - out.n < 2 ? cap - out.n : 2;
                LEGAL(want == 2);
                CHECK(got == (size_t)want, "as much of a reply is queued as fits");
                for (int i = 0; i < want; i++) { out.push_back((uint8_t)c[i]); queued++; }
                break;
            }
            case 2: for (int i = 0; i < 2; i++) fake->in[fake->in_n++] = sym::u8("more"); arrive(); sym_reach("more input during a transaction"); break;
            case 3: { Transaction m(std::move(*t)); CHECK(t->is_finalized(), "a transaction that was moved away is over"); shows(m);
                if (k % 2) *t = std::move(m);
                else t.emplace(std::move(m));
                CHECK(m.is_finalized(), "a transaction that was moved away is over");
                break; }
            }
            shows(*t);
        }
        switch (sym::pick("end", 4)) {
        case 0: t->commit(); break;
        case 1: t->abort(); out.n -= queued; sym_reach("aborted"); break;
        case 2: t.reset(); open = false; break;
        case 3: { Transaction m(std::move(*t)); break; }
        }
        for (int i = 0; i < len; i++) in.remove(0);
        if (open) CHECK(t->is_finalized(), "a transaction ends once");
    }
    CHECK(s.input_buffer_space_used() == (size_t)in.n, "ending a transaction takes exactly its line");
    CHECK(s.output_buffer_space_used() == (size_t)out.n, "a committed reply stays, an aborted one goes, and nothing else");
    CHECK(s.has_line() == (line(in) > 0), "the next line is next");
    auto v = s.get_next_line_view();
    if (v) for (int i = 0; i + 1 < line(in); i++) CHECK((uint8_t)(*v)[i] == in.v[i], "the next line is next");
    fake->room = 20;
    s.push_out_data();
    CHECK(fake->out_n == out.n, "exactly the committed replies are written");
    for (int i = 0; i < out.n && i < fake->out_n; i++) CHECK(fake->out[i] == out.v[i], "replies are written in order");
}

HARNESS(h_transaction_wide) { // lines and replies longer than a byte counts
    const int cap = 600;
    static WideStream* w;
    static char reply[300];
    auto fake = std::make_shared<WideStream>();
    w = fake.get();
    BufferedStream s(fake, BufferedStream::Config{(size_t)cap, (size_t)cap});
    int skip = sym::fork("offset") ? 500 : 0;
    for (int i = 0; i < skip; i++) { w->in[w->in_n++] = '\n'; s.buffered_write((uint8_t)'z'); }
    s.pull_in_data();
    for (int i = 0; i < skip; i++) s.drop_next_line();
    s.output_buffer_drop_first(skip);
    w->in_n = w->in_at = 0;
    int e = sym::fork("earlier output") ? 3 : 0;
    for (int i = 0; i < e; i++) s.buffered_write((uint8_t)('0' + i));
    int len = 254 + (int)sym::pick("length", 4);
    for (int i = 0; i < len; i++) { w->in[w->in_n++] = i % 100 == 54 ? sym::u8("c") : 'a' + i % 26; sym_assume(!delim(w->in[w->in_n - 1])); }
    w->in[w->in_n++] = '\n';
    for (int i = 0; i < 4; i++) w->in[w->in_n++] = i == 3 ? '\n' : 'x';
    s.pull_in_data();
    int queued = 0, kept = e;
    {
        auto t = s.new_transaction();
        CHECK(t && t->incoming().size() == (size_t)len, "a transaction shows the line that caused it");
        for (int i = 0; i < len; i++) CHECK((uint8_t)t->incoming()[i] == w->in[i], "a transaction shows the line that caused it");
        int n1 = 200, n2 = 54 + (int)sym::pick("reply", 4);
        for (int i = 0; i < 300; i++) reply[i] = (char)(i * 11);
        CHECK(t->outgoing(reply, n1) == (size_t)n1 && t->outgoing(reply + n1, n2) == (size_t)n2, "a reply that fits is queued");
        queued = n1 + n2;
        CHECK(t->outgoing_space_used() == (size_t)queued && t->outgoing_space_left() == (size_t)(cap - e - queued), "a transaction accounts for its reply");
        if (sym::fork("moved")) { Transaction m(std::move(*t)); CHECK(m.outgoing_space_used() == (size_t)queued, "a transaction accounts for its reply"); t.emplace(std::move(m)); }
        switch (sym::pick("end", 3)) {
        case 0: t->commit(); kept += queued; break;
        case 1: t->abort(); queued = 0; sym_reach("aborted"); break;
        case 2: kept += queued; break; // a transaction that is dropped commits
        }
    }
    CHECK(s.output_buffer_space_used() == (size_t)kept, "a committed reply stays, an aborted one goes, and nothing else");
    CHECK(s.input_buffer_space_used() == 4, "ending a transaction takes exactly its line");
    auto v = s.get_next_line_view();
    CHECK(v && *v == std::string_view("xxx"), "the next line is next");
    w->room = 700;
    s.push_out_data();
    CHECK(w->out_n == kept, "exactly the committed replies are written");
    for (int i = 0; i < kept; i++) CHECK(w->out[i] == (uint8_t)(i < e ? '0' + i : reply[i - e]), "replies are written in order");
    sym_reach("wide");
}

HARNESS(h_transaction_huge) { // replies longer than a half word counts
    const int N = 66000;
    static HugeStream* w;
    static char reply[N];
    auto fake = std::make_shared<HugeStream>();
    w = fake.get();
    BufferedStream s(fake, BufferedStream::Config{8, (size_t)N + 8});
    for (int i = 0; i < N; i++) reply[i] = (char)(i * 11);
    uint8_t c = sym::u8("c");
    reply[N - 1] = (char)c;
    for (int i = 0; i < 3; i++) s.buffered_write((uint8_t)('0' + i));
    w->in[w->in_n++] = 'q';
    w->in[w->in_n++] = '\n';
    s.pull_in_data();
    bool abort = sym::fork("abort");
    {
        auto t = s.new_transaction();
        CHECK(t && t->outgoing(reply, N - 1) == (size_t)N - 1 && t->outgoing((char)c) == 1, "a reply that fits is queued");
        CHECK(t->outgoing_space_used() == (size_t)N && t->outgoing_space_left() == 5, "a transaction accounts for its reply");
        if (abort) t->abort();
    }
    int kept = 3 + (abort ? 0 : N);
    CHECK(s.output_buffer_space_used() == (size_t)kept && s.input_buffer_space_used() == 0, "a committed reply stays, an aborted one goes, and nothing else");
    w->room = N + 8;
    CHECK(s.push_out_data() == (size_t)kept && w->out[0] == '0' && w->out[2] == '2', "exactly the committed replies are written");
    if (!abort) CHECK(w->out[3 + 65535] == (uint8_t)reply[65535] && w->out[3 + 65536] == (uint8_t)reply[65536] && w->out[N + 2] == c, "replies are written in order");
    sym_reach("huge");
}
