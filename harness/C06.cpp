// PackedArray histories against a plain array; the five packed readers on the same memory.
#include "common.hpp"
#include "packed_array.hpp"
#include "rd.hpp"
struct Op { uint64_t i, v; };
static void one(uint64_t seed) {
    Rng g(seed);
    uint64_t len = 1 + rnd(g, rnd(g, 10) ? 40 : 1500); uint8_t w = (uint8_t)(1 + rnd(g, 64));
    uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
    flbwt::PackedArray a(len, w);
    std::map<uint64_t, uint64_t> m;
    if (a.get_length() != len || a.get_integer_bits() != w) fail("length or width differ from the constructor's");
    if (rnd(g, 2)) { uint64_t *raw = a.get_raw_arr_pointer(); for (uint64_t i = 0; i < len * w / 64 + (len * w % 64 != 0); i++) raw[i] = rnd(g, 2) ? ~0ull : g(); }
    uint64_t ops = 20 + rnd(g, 3 * len);
    auto chk = [&](uint64_t i) {
        uint64_t got = a.get_value(i);
        if (got != m[i]) fail("width " + std::to_string(w) + " length " + std::to_string(len) + ": element " + std::to_string(i) + " reads " + std::to_string(got) + ", last stored " + std::to_string(m[i]));
        for (int r = 0; r < N_READERS; r++) { uint64_t x = READERS[r](a.get_raw_arr_pointer(), i, w); if (x != m[i]) fail(std::string("packed reader ") + std::to_string(r) + " width " + std::to_string(w) + ": element " + std::to_string(i) + " reads " + std::to_string(x) + ", last stored " + std::to_string(m[i])); }
    };
    for (uint64_t k = 0; k < ops; k++) {
        uint64_t i = rnd(g, len), v = (rnd(g, 4) == 0 ? mask : rnd(g, 4) == 0 ? 0 : g()) & mask;
        a.set_value(i, v); m[i] = v;
        for (uint64_t j = i < 70 ? 0 : i - 70; j < std::min(len, i + 70); j++) if (m.count(j)) chk(j);
    }
    for (auto &p : std::map<uint64_t, uint64_t>(m)) chk(p.first);
    count_case(seed, true, "width " + std::to_string(w) + " length " + std::to_string(len) + " " + std::to_string(ops) + " stores, history seed " + std::to_string(seed));
}
// more than 2^33 bits: bit positions and, for one-bit elements, indices beyond 32 bits
static void big(uint64_t seed) {
    note_case("big " + std::to_string(seed)); Rng g(seed);
    static const uint8_t W[] = {1, 1, 2, 3, 5, 8, 13, 31, 32, 33, 47, 63, 64}; uint8_t w = W[rnd(g, 13)]; uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1, bits = (1ull << 33) + (1 << 20), len = bits / w;
    flbwt::PackedArray a(len, w); std::map<uint64_t, uint64_t> m;
    if (!a.get_raw_arr_pointer()) return;
    if (a.get_length() != len || a.get_integer_bits() != w) fail("length or width differ from the constructor's");
    for (int k = 0; k < 300; k++) {
        static const uint64_t B[] = {0, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 16}; uint64_t b = B[rnd(g, 5)], i = (rnd(g, 2) ? b / w : b) + rnd(g, 12); if (i >= 6) i -= 6; if (i >= len) i = len - 1 - rnd(g, 6);
        uint64_t v = g() & mask; a.set_value(i, v); m[i] = v;
        for (auto &e : m) { uint64_t x = a.get_value(e.first); if (x != e.second) fail("width " + std::to_string(w) + " length " + std::to_string(len) + ": element " + std::to_string(e.first) + " reads " + std::to_string(x) + ", last stored " + std::to_string(e.second)); }
    }
    count_case(seed, true, "width " + std::to_string(w) + " length " + std::to_string(len) + ", seed " + std::to_string(seed));
}
// the packed readers far into mostly untouched memory
static void far(uint64_t seed) {
    note_case("far " + std::to_string(seed)); Rng g(seed);
    static uint64_t *B = (uint64_t *)sparse((1ull << 36) + 4096); if (!B) return;
    uint8_t w = (uint8_t)(rnd(g, 3) ? 1 + rnd(g, 64) : 1); uint64_t mx = (1ull << 39) / w, i = rnd(g, 2) ? g() % mx : std::min<uint64_t>(mx - 1, (1ull << (28 + rnd(g, 11))) / (rnd(g, 2) ? w : 1) + rnd(g, 70) - 35);
    uint64_t at = (uint64_t)((unsigned __int128)i * w / 64); B[at] = g(); B[at + 1] = g(); uint64_t v = 0;
    for (int k = 0; k < w; k++) { unsigned __int128 bit = (unsigned __int128)i * w + k; v = v << 1 | (B[(uint64_t)(bit / 64)] >> (63 - (int)(bit % 64)) & 1); }
    for (int r = 0; r < N_READERS; r++) { uint64_t x = READERS[r](B, i, w); if (x != v) fail(std::string("packed reader ") + std::to_string(r) + " width " + std::to_string(w) + ": element " + std::to_string(i) + " reads " + std::to_string(x) + ", is " + std::to_string(v)); }
    B[at] = B[at + 1] = 0; if (seed % 512 == 0) madvise(B, 1ull << 36, MADV_DONTNEED);
    count_case(seed, true, "packed readers, width " + std::to_string(w) + ", element " + std::to_string(i));
}
void run_property() {
    if (X.replay && X.replay_text.compare(0, 3, "big") == 0) { big(strtoull(X.replay_text.c_str() + 4, 0, 10)); return; }
    if (X.replay && X.replay_text.compare(0, 3, "far") == 0) { far(strtoull(X.replay_text.c_str() + 4, 0, 10)); return; }
    if (!X.replay) { if (X.part < 3) big(X.seed * 8 + X.part); for (int k = 0; k < 2000; k++) far(X.seed * 100000 + X.part * 4096 + k); }
    if (X.replay) { one(strtoull(X.replay_text.c_str() + 5, 0, 10)); return; }
    for (uint64_t k = 0; more(); k++) { uint64_t s = (X.seed << 40) + (uint64_t)X.part * 1000000007ull + k; note_case("seed " + std::to_string(s)); one(s); }
}
