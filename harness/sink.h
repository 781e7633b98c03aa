// A destination that hands out exact-size heap chunks (any access outside a chunk is caught), with a chosen
// space before the first recycle and a chosen surplus over the guaranteed minimum after each, and may turn bad.
#pragma once
#include "uni.h"
#include <strf/destination.hpp>
template <class C, unsigned L = 6, int CAP = 400> struct Sink final : strf::output_buffer<C, L> {
    using B = strf::output_buffer<C, L>;
    C out[CAP]; int n = 0, recycles = 0, bad_after; int extra; C* chunk; bool lost = false;
    // room: space before the first recycle; extra: surplus of each later chunk; bad_after: number of recycles after which it is bad (-1: never)
    static C* mk(int n) { return reinterpret_cast<C*>(std::malloc(n > 0 ? n * sizeof(C) : 1)); }
    explicit Sink(int room, int extra_ = 0, int bad_after_ = -1) : B(static_cast<C*>(nullptr), static_cast<C*>(nullptr)), bad_after(bad_after_), extra(extra_) { chunk = mk(room); this->set_buffer_ptr(chunk); this->set_buffer_end(chunk + room); }
    ~Sink() { std::free(chunk); }
    void take() { int k = (int)(this->buffer_ptr() - chunk); sym_check(k >= 0 && this->buffer_ptr() <= this->buffer_end(), "buffer pointer inside the chunk"); if (!this->good()) { if (k) lost = true; } else for (int i = 0; i < k; ++i) { if (n < CAP) out[n] = chunk[i]; ++n; } }
    void recycle() override { take(); std::free(chunk); ++recycles; int sz = (1 << L) + extra; chunk = mk(sz); this->set_buffer_ptr(chunk); this->set_buffer_end(chunk + sz); if (bad_after >= 0 && recycles > bad_after) this->set_good(false); }
    void finish() { take(); std::free(chunk); chunk = mk(0); this->set_buffer_ptr(chunk); this->set_buffer_end(chunk); sym_check(n <= CAP, "harness capacity"); }
};
