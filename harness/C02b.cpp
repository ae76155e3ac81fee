// File transform with a stand-in for bwt_string and fwrite: ranks up to 2^62 without the memory they would need.
#include "common.hpp"
#include "flbwt.hpp"
static uint64_t g_last; static uint8_t *g_bwt; static bool used;
namespace flbwt { BWT_result *bwt_string(uint8_t *T, const uint64_t n, bool free_T) {
    used = true; if (free_T) free(T);
    BWT_result *r = (BWT_result *)malloc(sizeof(BWT_result)); r->last = g_last; r->BWT = new uint8_t[n + 2]; memset(r->BWT, 'x', n + 2); g_bwt = r->BWT; return r; } }
struct W { const uint8_t *p; uint64_t n; Bytes head; };
static std::vector<W> log_;
static bool record = false;
extern "C" size_t __real_fwrite(const void *, size_t, size_t, FILE *);
extern "C" size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    if (!record) return __real_fwrite(p, s, n, f);
    W w; w.p = (const uint8_t *)p; w.n = s * n; if (w.n <= 16) w.head.assign(w.p, w.p + w.n); log_.push_back(w); return n; }
#include <sys/resource.h>
void run_property() {
    { struct rlimit l = {1 << 20, 1 << 20}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }   // ranks are not backed by data
    Rng g(X.seed + X.part);
    std::string in = X.dir + "/q" + std::to_string(X.part) + "in", out = X.dir + "/q" + std::to_string(X.part) + "out";
    uint64_t n = 50;
    FILE *f = fopen(in.c_str(), "wb"); Bytes t(n, 'a'); __real_fwrite(t.data(), 1, n, f); fclose(f);
    auto run = [&](uint64_t last) {
        note_case("rank " + std::to_string(last));
        g_last = last; log_.clear(); used = false; record = true;
        try { flbwt::bwt_file(in.c_str(), out.c_str()); } catch (const std::exception &e) { record = false; (void)e; finish(0); }   // this way of writing does not fit the stand-in
        record = false;
        if (!used) finish(0);                                    // stand-in not reached: nothing to say
        Bytes head; uint64_t got = 0; std::vector<std::pair<uint64_t, uint64_t>> runs;
        for (auto &w : log_) {
            if (w.p < g_bwt || w.p > g_bwt + n + 2) {
                if (got) break;                                  // behind the short stand-in array
                if (w.n > 16) finish(0);                         // other buffering scheme: left to the real-file search
                head.insert(head.end(), w.head.begin(), w.head.end());
            } else { runs.push_back({(uint64_t)(w.p - g_bwt), w.n}); got += w.n; }
        }
        if (head.size() != 8) finish(0);
        uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | head[i];
        if (v != last) fail("header reads " + std::to_string(v) + " for rank " + std::to_string(last));
        count_case(last, true, "rank " + std::to_string(last));
    };
    if (X.replay) { run(strtoull(X.replay_text.c_str() + 5, 0, 10)); finish(0); }
    for (uint64_t i = 0; i <= n; i++) run(i);
    for (int b = 0; b < 62; b++) { run(1ull << b); run((1ull << b) - 1); run((1ull << b) + 1); }
    for (int b = 0; b < 8; b++) for (int v = 0; v < (b == 7 ? 64 : 256); v++) run((uint64_t)v << (8 * b));
    while (more() && X.evals < 20000) run(g() >> (2 + rnd(g, 60)));
}
