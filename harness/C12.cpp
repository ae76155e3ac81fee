// The five suffix sorters against an independent suffix array.
#include "common.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include "packed_array.hpp"
static void one(const std::vector<uint64_t> &s, uint64_t k, uint8_t cs, int which, size_t fs) {
    size_t n = s.size();
    // entries are packed behind one leading entry, as in the shortened string
    flbwt::PackedArray T(n + 1, cs); T.set_value(0, k - 1 > 0 ? (k - 1) : 0); for (size_t i = 0; i < n; i++) T.set_value(i + 1, s[i]);
    size_t words = (n + 1) * cs / 64 + ((n + 1) * cs % 64 != 0); std::vector<uint64_t> raw(T.get_raw_arr_pointer(), T.get_raw_arr_pointer() + words);
    auto sa = oracle_sa(s, false);
    const uint8_t *p = (const uint8_t *)T.get_raw_arr_pointer();
    for (int w = 0; w < 5; w++) {
        if (which >= 0 && w != which) continue;
        static const uint8_t WB[] = {32, 40, 48, 56, 64}; if (cs == WB[w]) continue;
        std::vector<int64_t> out(n);
        if (w == 0) { std::unique_ptr<int32_t[]> A(new int32_t[n + fs]); flbwt::sais_32bit(p, A.get(), fs, n, k, cs); for (size_t i = 0; i < n; i++) out[i] = A[i]; }
        if (w == 1) { std::unique_ptr<uint32_t[]> L(new uint32_t[n + fs]); std::unique_ptr<int8_t[]> U(new int8_t[n + fs]); flbwt::sais_40bit(p, NULL, NULL, L.get(), U.get(), fs, n, k, cs); for (size_t i = 0; i < n; i++) out[i] = (int64_t)U[i] * 4294967296ll + L[i]; }
        if (w == 2) { std::unique_ptr<uint32_t[]> L(new uint32_t[n + fs]); std::unique_ptr<int16_t[]> U(new int16_t[n + fs]); flbwt::sais_48bit(p, NULL, NULL, L.get(), U.get(), fs, n, k, cs); for (size_t i = 0; i < n; i++) out[i] = (int64_t)U[i] * 4294967296ll + L[i]; }
        if (w == 3) { std::unique_ptr<uint32_t[]> L(new uint32_t[n + fs]); std::unique_ptr<uint16_t[]> M(new uint16_t[n + fs]); std::unique_ptr<int8_t[]> U(new int8_t[n + fs]); flbwt::sais_56bit(p, NULL, NULL, NULL, L.get(), M.get(), U.get(), fs, n, k, cs); for (size_t i = 0; i < n; i++) out[i] = ((int64_t)U[i] * 65536 + M[i]) * 4294967296ll + L[i]; }
        if (w == 4) { std::unique_ptr<int64_t[]> A(new int64_t[n + fs]); flbwt::sais_64bit(p, A.get(), fs, n, k, cs); for (size_t i = 0; i < n; i++) out[i] = A[i]; }
        for (size_t i = 0; i < n; i++) if (out[i] != (int64_t)sa[i]) fail("sais_" + std::to_string(WB[w]) + "bit: position " + std::to_string(i) + " holds " + std::to_string(out[i]) + ", expected " + std::to_string(sa[i]));
        if (memcmp(raw.data(), p, words * 8)) fail("sais_" + std::to_string(WB[w]) + "bit changed its input");
    }
}
// long equal substrings that differ only at their ends
static Bytes blocks(Rng &g) {
    Bytes t; size_t len = 65530 + rnd(g, 1200); size_t d = len - 1 - rnd(g, 60); int c = 3 + (int)rnd(g, 3);
    for (int r = 0; r < 6; r++) { t.push_back(0); for (size_t i = 0; i < len; i++) t.push_back(i < d ? 1 : i == d && rnd(g, 2) ? (uint8_t)c : (uint8_t)(c + 1)); t.push_back((uint8_t)(7)); t.push_back((uint8_t)(rnd(g, 4))); }
    return t;
}
// room: spare working space behind the output, around one and two bucket tables
static void case_(const Bytes &t, int which, uint64_t mult, uint8_t extra, unsigned room) {
    // map the bytes to names 1.., end with 0; mult spreads them over a larger alphabet
    std::vector<uint64_t> s; for (uint8_t c : t) s.push_back((uint64_t)c * mult + 1); s.push_back(0);
    uint64_t mx = *std::max_element(s.begin(), s.end()); uint64_t k = mx + 2; uint8_t cs = 1; while (k - 1 >> cs) cs++; if (cs + extra <= 31) cs += extra;
    size_t fs = room == 0 ? 0 : room == 1 ? k - 1 : room == 2 ? k : room == 3 ? 2 * k - 1 : room == 4 ? 2 * k : room;
    one(s, k, cs, which, fs);
}
void run_property() {
    if (X.replay) { int w = -1; unsigned m = 1, e = 0, fr = 0; sscanf(X.replay_text.c_str(), "string which=%d mult=%u extra=%u room=%u", &w, &m, &e, &fr); case_(unhex(X.replay_text.substr(X.replay_text.find("hex=") + 4)), w, m, (uint8_t)e, fr); return; }
    Rng g(X.seed * 31 + X.part); uint64_t e = X.part, r = 0; bool big = false;
    while (more()) {
        bool first = false; Bytes t; if (r++ % 2) { t = enum_case(e); e += X.parts; if (t.empty()) e = 0; }
        if (t.empty()) { static const size_t S[] = {12, 12, 40, 40, 200, 200, 1500, 1500, 20000}; t = gen_string(g, S[rnd(g, 9)]); }
        if (!big && elapsed() > X.budget * 0.3) { big = first = true; if (X.part % 4 == 2) { t.resize(200000); for (auto &c : t) c = (uint8_t)g(); } else t = X.part % 4 == 0 ? fib(150000, 1, 2) : X.part % 4 == 1 ? blocks(g) : gen_string(g, 200000); }
        int which = t.size() > 30000 ? -1 : (int)rnd(g, 5); unsigned mult = rnd(g, 4) ? 1 : (unsigned)(1 + rnd(g, 3000)), ex = rnd(g, 4) ? 0 : (unsigned)rnd(g, 12), room = rnd(g, 3) || first ? 0 : rnd(g, 6) ? 1 + (unsigned)rnd(g, 4) : (unsigned)rnd(g, 1000);
        if (first) ex = 20;
        if (rnd(g, 3) == 0 && t.size() < 400) { // dense renaming, as real names are
            std::set<uint8_t> u(t.begin(), t.end()); std::map<uint8_t, uint8_t> mp; uint8_t c = 0; for (uint8_t x : u) mp[x] = c++; for (auto &x : t) x = mp[x]; }
        note_case("string which=" + std::to_string(which) + " mult=" + std::to_string(mult) + " extra=" + std::to_string(ex) + " room=" + std::to_string(room) + " hex=" + hex(t));
        case_(t, which, mult, (uint8_t)ex, room);
        count_case(fnv(t.data(), t.size(), which * 7 + mult), t.size() > 2, "sorter " + std::to_string(which) + " n=" + std::to_string(t.size() + 1) + " hex=" + hex(t, 50));
    }
}
