// In-memory transform against an independent suffix array.
#include "common.hpp"
#include "flbwt.hpp"
#ifdef HAVE_HOOK
extern uint8_t flbwt_verify_min_bits;
#endif
static void one(const Bytes &t, const BwtO &o, int w) {
    size_t n = t.size();
    Buf b(t);
#ifdef HAVE_HOOK
    flbwt_verify_min_bits = (uint8_t)w;
#endif
    flbwt::BWT_result *r = flbwt::bwt_string(b.p, n, false);
    std::string at = " (minimum width " + std::to_string(w) + ")";
    if (!r || !r->BWT) fail("no result" + at);
    if (memcmp(b.p, t.data(), n) || b.p[n]) fail("the input string was changed" + at);
    if (r->last != o.last) fail("rank is " + std::to_string(r->last) + ", expected " + std::to_string(o.last) + at);
    for (size_t i = 0; i <= n; i++) if (i != o.last && r->BWT[i] != o.b[i])
        fail("entry " + std::to_string(i) + " is " + std::to_string(r->BWT[i]) + ", expected " + std::to_string(o.b[i]) + at);
    delete[] r->BWT; free(r);
}
void run_property() {
    uint64_t k = 0;
    string_cases([&](const Bytes &t) {
        if (t.empty()) return;
        BwtO o = oracle_bwt(t);
        one(t, o, 0);
#if defined(HAVE_HOOK) && defined(PLAIN)
        for (int w = 32; w <= 56; w += 8) one(t, o, w); (void)k;
#elif defined(HAVE_HOOK)
        static const int W[] = {32, 40, 48, 56};
        if (X.replay) { for (int w : W) one(t, o, w); } else if (k++ % 3 == 0) one(t, o, W[k % 4]);
#endif
    });
}
