// Split-width loads and stores against plain 64-bit arrays.
#include "common.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
static int64_t val(Rng &g, int bits) {
    switch (rnd(g, 6)) { case 0: { int64_t v = (int64_t)1 << rnd(g, bits - 1); v += (int64_t)rnd(g, 3) - 1; return rnd(g, 2) ? v : ~v; } case 1: return (int64_t)rnd(g, 3) - 1; case 2: return rnd(g, 2) ? ((int64_t)1 << (bits - 1)) - 1 : -((int64_t)1 << (bits - 1)); }
    return (int64_t)(g() << (64 - bits)) >> (64 - bits); }
// indices on both sides of 2^31, 2^32 and 2^33: far elements do not share storage with near ones
static void far(uint64_t seed) {
    Rng g(seed); int w = (int)rnd(g, 3); int bits = w == 0 ? 40 : w == 1 ? 48 : 56;
    const uint64_t N = (1ull << 33) + 64; static const uint64_t B[] = {0, 1ull << 16, (1ull << 31) - 8, (1ull << 32) - 8, 1ull << 33};
    static uint32_t *L = (uint32_t *)sparse(N * 4); static uint16_t *M = (uint16_t *)sparse(N * 2); static int8_t *U8 = (int8_t *)sparse(N);
    if (!L || !M || !U8) return;
    std::map<uint64_t, int64_t> m;
    for (int k = 0; k < 60; k++) {
        uint64_t i = B[rnd(g, 5)] + rnd(g, 16); int64_t v = val(g, bits); m[i] = v;
        if (w == 0) flbwt::set_40bit_value(L, U8, i, v); else if (w == 1) flbwt::set_48bit_value(L, (int16_t *)M, i, v); else flbwt::set_56bit_value(L, M, U8, i, v);
        for (auto &e : m) { int64_t x = w == 0 ? flbwt::get_40bit_value(L, U8, e.first) : w == 1 ? flbwt::get_48bit_value(L, (int16_t *)M, e.first) : flbwt::get_56bit_value(L, M, U8, e.first);
            if (x != e.second) fail(std::to_string(bits) + " bits: index " + std::to_string(e.first) + " reads " + std::to_string(x) + ", stored " + std::to_string(e.second)); }
    }
    count_case(seed, true, std::to_string(bits) + " bit layout, far indices, history seed " + std::to_string(seed));
}
static void one(uint64_t seed) {
    if (seed % 16 == 3) { far(seed); return; }
    Rng g(seed); size_t n = 1 + rnd(g, 40); int w = (int)rnd(g, 3); int bits = w == 0 ? 40 : w == 1 ? 48 : 56;
    std::unique_ptr<uint32_t[]> L(new uint32_t[n]); std::unique_ptr<uint16_t[]> M(new uint16_t[n]); std::unique_ptr<int8_t[]> U8(new int8_t[n]); std::unique_ptr<int16_t[]> U16(new int16_t[n]);
    std::map<size_t, int64_t> m;
    for (int k = 0; k < 100; k++) {
        size_t i = rnd(g, n); int64_t v = val(g, bits); m[i] = v;
        if (w == 0) flbwt::set_40bit_value(L.get(), U8.get(), i, v); else if (w == 1) flbwt::set_48bit_value(L.get(), U16.get(), i, v); else flbwt::set_56bit_value(L.get(), M.get(), U8.get(), i, v);
        for (auto &e : m) { int64_t x = w == 0 ? flbwt::get_40bit_value(L.get(), U8.get(), e.first) : w == 1 ? flbwt::get_48bit_value(L.get(), U16.get(), e.first) : flbwt::get_56bit_value(L.get(), M.get(), U8.get(), e.first);
            if (x != e.second) fail(std::to_string(bits) + " bits: index " + std::to_string(e.first) + " reads " + std::to_string(x) + ", stored " + std::to_string(e.second)); }
    }
    count_case(seed, true, std::to_string(bits) + " bit layout, history seed " + std::to_string(seed));
}
void run_property() {
    if (X.replay) { one(strtoull(X.replay_text.c_str() + 5, 0, 10)); return; }
    for (uint64_t k = 0; more(); k++) { uint64_t s = (X.seed << 40) + (uint64_t)X.part * 1000000007ull + k; note_case("seed " + std::to_string(s)); one(s); }
}
