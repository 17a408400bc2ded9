// a stream under the harness' control: what is available, what fits and what fails is decided by symbolic inputs
#pragma once
#include "ref.h"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
struct FakeStream final : spn::io::Stream {
    uint8_t in[32]; int in_n = 0, in_at = 0; // bytes that arrived, and how many were read
    uint8_t out[32]; int out_n = 0;          // bytes written
    int room = 0;                            // how many more bytes can be written
    int fail_read = -1, fail_write = -1;     // number of reads/writes until one fails
    void initialize() override {}
    void flush() override {}
    using Stream::read;
    using Stream::write;
    size_t available() const override { return in_n - in_at; }
    bool read(uint8_t& v) override {
        if (in_at >= in_n) return false;
        if (fail_read == 0) { fail_read = -1; return false; }
        if (fail_read > 0) fail_read--;
        v = in[in_at++];
        return true;
    }
    size_t read(uint8_t* b, size_t n) override { size_t i = 0; while (i < n && read(b[i])) i++; return i; }
    size_t available_for_write() const override { return room; }
    bool write(const uint8_t v) override {
        if (room == 0) return false;
        if (fail_write == 0) { fail_write = -1; return false; }
        if (fail_write > 0) fail_write--;
        room--;
        out[out_n++] = v;
        return true;
    }
    size_t write(const uint8_t* b, size_t n) override { size_t i = 0; while (i < n && write(b[i])) i++; return i; }
};
template<int N> struct WideStreamOf final : spn::io::Stream { // larger, and never failing
    uint8_t in[N], out[N]; int in_n = 0, in_at = 0, out_n = 0, room = 0;
    void initialize() override {}
    void flush() override {}
    using Stream::read;
    using Stream::write;
    size_t available() const override { return in_n - in_at; }
    bool read(uint8_t& v) override { if (in_at >= in_n) return false; v = in[in_at++]; return true; }
    size_t read(uint8_t* b, size_t n) override { size_t i = 0; while (i < n && read(b[i])) i++; return i; }
    size_t available_for_write() const override { return room; }
    bool write(const uint8_t v) override { if (room == 0) return false; room--; out[out_n++] = v; return true; }
    size_t write(const uint8_t* b, size_t n) override { size_t i = 0; while (i < n && write(b[i])) i++; return i; }
};
typedef WideStreamOf<700> WideStream;
typedef WideStreamOf<70000> HugeStream; // more than a half word counts
