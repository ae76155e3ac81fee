// In-memory transform of texts made of few runs, longer than 2^31 or 2^32 bytes; built without sanitizers.
// Oracle: order of the suffixes computed on the runs (within a character: suffixes whose run is followed by a smaller
// character first, shorter remainders first; the others by longer remainders first; ties by the rank of what follows).
#include "common.hpp"
#include "flbwt.hpp"
typedef std::vector<std::pair<int, uint64_t>> Runs;   // neighbouring characters differ
static bool less_suffix(const Runs &R, size_t i, size_t j) {
    if (i == j) return false;
    for (;; i++, j++) {
        if (i == R.size()) return true;
        if (j == R.size()) return false;
        if (R[i].first != R[j].first) return R[i].first < R[j].first;
        if (R[i].second == R[j].second) continue;
        bool is = R[i].second < R[j].second; size_t s = is ? i : j; int c = R[i].first, d = s + 1 < R.size() ? R[s + 1].first : -1;
        return (d < c) == is;
    }
}
static void check(const Runs &R, bool release) {
    uint64_t n = 0; std::string name = release ? "runs free" : "runs keep";
    for (auto &r : R) { n += r.second; name += " " + std::to_string(r.first) + "x" + std::to_string(r.second); }
    note_case(name);
    { struct itimerval tv = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &tv, NULL); alarm(0); }
    uint8_t *T = (uint8_t *)malloc(n + 1); if (!T) finish(0);
    { uint64_t p = 0; for (auto &r : R) { memset(T + p, r.first, r.second); p += r.second; } T[n] = 0; }
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, release);
    if (!r || !r->BWT) fail("no result");
    if (!release) { uint64_t p = 0; for (auto &x : R) for (uint64_t e = p + x.second; p < e; p++) if (T[p] != x.first) fail("the input string was changed at " + std::to_string(p)); free(T); }
    std::vector<size_t> ord(R.size() + 1), rank(R.size() + 1);
    for (size_t i = 0; i <= R.size(); i++) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return less_suffix(R, a, b); });
    for (size_t i = 0; i < ord.size(); i++) rank[ord[i]] = i;
    const uint8_t *B = r->BWT; uint64_t at = 0;
    auto expect = [&](int c) { if (c < 0) { if (r->last != at) fail("rank is " + std::to_string(r->last) + ", expected " + std::to_string(at)); }
                               else if (B[at] != c) fail("entry " + std::to_string(at) + " is " + std::to_string(B[at]) + ", expected " + std::to_string(c)); at++; };
    expect(R.back().first);
    for (int c = 0; c < 256; c++) for (int up = 0; up < 2; up++) {
        std::vector<size_t> J; std::vector<uint64_t> len;
        for (size_t j = 0; j < R.size(); j++) if (R[j].first == c && (j + 1 < R.size() && R[j + 1].first > c) == (up == 1)) { J.push_back(j); len.push_back(R[j].second); }
        if (J.empty()) continue;
        std::sort(J.begin(), J.end(), [&](size_t a, size_t b) { return rank[a + 1] < rank[b + 1]; });
        std::sort(len.begin(), len.end()); len.erase(std::unique(len.begin(), len.end()), len.end());
        auto whole = [&](uint64_t x) { for (size_t j : J) if (R[j].second >= x) expect(R[j].second > x ? c : j ? R[j - 1].first : -1); };
        auto inner = [&](uint64_t lo, uint64_t hi) { uint64_t k = 0; for (size_t j : J) k += R[j].second > lo;   // remainders strictly between lo and hi
            for (uint64_t e = at + k * (hi - lo - 1); at < e; at++) if (B[at] != c) fail("entry " + std::to_string(at) + " is " + std::to_string(B[at]) + ", expected " + std::to_string(c)); };
        if (!up) for (size_t i = 0; i < len.size(); i++) { inner(i ? len[i - 1] : 0, len[i]); whole(len[i]); }
        else for (size_t i = len.size(); i-- > 0;) { whole(len[i]); inner(i ? len[i - 1] : 0, len[i]); }
    }
    if (at != n + 1) finish(3);
    count_case(n, true, name);
    delete[] r->BWT; free(r);
}
void run_property() {
    if (X.replay) { Runs R; const char *s = strchr(X.replay_text.c_str() + 5, ' '); while (s && *s) { char *e; int c = (int)strtol(s, &e, 10); uint64_t l = strtoull(e + 1, &e, 10); R.push_back({c, l}); s = *e == ' ' ? e : NULL; }
        check(R, X.replay_text[5] == 'f'); return; }
    Rng g(X.seed * 77 + X.part);
    auto gen = [&](uint64_t big) { Runs R; size_t k = 2 + rnd(g, 12), at = rnd(g, k); static const int BASE[] = {0, 100, 250}; int base = BASE[rnd(g, 3)], al = 2 + (int)rnd(g, 5);
        for (size_t i = 0; i < k; i++) { int c; do c = base + (int)rnd(g, al); while (!R.empty() && R.back().first == c); R.push_back({c, 1 + rnd(g, rnd(g, 2) ? 3 : 300)}); }
        R[at].second = big; return R; };
    if (X.scale == 1) { while (more()) check(gen(1 + rnd(g, 1 + rnd(g, 5000))), rnd(g, 2)); return; }   // the driver itself on small inputs
    for (int i = 0; i < 3; i++) check(gen(1 + rnd(g, 200000)), i & 1);
    // X.parts: which of the three large tasks; the first makes the long run part of a substring between two S* positions
    uint64_t d = 1 + rnd(g, 2000); Runs inside = {{98, 3}, {97, 2}, {99, X.parts == 2 ? (1ull << 32) + d : (1ull << 31) + d}, {97, 1}, {100, 2}, {97, 2}, {98, 1}};
    if (X.parts != 1) check(inside, true);
    if (X.parts != 2 && more()) check(gen((1ull << 31) + rnd(g, 2000)), true);
    if (X.parts == 1 && X.budget > 60) check(gen((1ull << 32) + rnd(g, 2000)), true);
}
