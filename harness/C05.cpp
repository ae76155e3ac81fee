// In-memory transform under the sanitizers: buffers of exactly n+1 bytes, all width selections, uncapped shapes.
#include "common.hpp"
#include "flbwt.hpp"
#ifdef HAVE_HOOK
extern uint8_t flbwt_verify_min_bits;
#endif
void run_property() {
    uint64_t k = 0;
    string_cases([&](const Bytes &t) {
        if (t.empty()) return;
        static const int W[] = {0, 32, 40, 48, 56};
        for (int j = X.replay ? 0 : (int)(k % 5), e = X.replay ? 5 : (int)(k % 5) + 1; j < e; j++) {
#ifdef HAVE_HOOK
            flbwt_verify_min_bits = (uint8_t)(k % 2 || X.replay ? W[j] : 0);
#endif
            Buf b(t);
            flbwt::BWT_result *r = flbwt::bwt_string(b.p, t.size(), false);
            if (!r || !r->BWT) fail("no result");
            volatile uint8_t x = 0; for (size_t i = 0; i <= t.size(); i++) x ^= r->BWT[i];   // the whole result is addressable
            if (r->last > t.size()) fail("rank outside the result");
            delete[] r->BWT; free(r);
        }
        k++;
    });
}
