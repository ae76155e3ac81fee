#include <sys/time.h>
// Shared parts of the concrete searches: case generators, oracles, bookkeeping.
#pragma once
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
typedef std::vector<uint8_t> Bytes;
typedef std::mt19937_64 Rng;

// ---- bookkeeping: the case being run is kept in a mapped file so that it survives a crash
struct Ctx {
    std::string dir;          // scratch directory of this process
    uint64_t seed; int part, parts;
    double budget;            // seconds
    std::chrono::steady_clock::time_point t0;
    uint64_t evals = 0, nontrivial = 0;
    std::unordered_set<uint64_t> seen;
    char *cur = nullptr; size_t curcap = 0; uint64_t scale = 1;
    std::string sample, cls;
    bool replay = false; std::string replay_text;
};
static Ctx X;
static inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - X.t0).count(); }
static inline bool more() { return elapsed() < X.budget; }
static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
static void note_case(const std::string &text) {
    size_t n = std::min(text.size(), X.curcap - 1);
    memcpy(X.cur, text.data(), n); X.cur[n] = 0;
    { struct itimerval tv = {{0, 0}, {X.scale > 1 ? 250 : 60, 0}}; setitimer(ITIMER_PROF, &tv, NULL); } alarm(300);
}
static void count_case(uint64_t h, bool nontrivial, const std::string &sample) {
    X.evals++;
    if (nontrivial && X.seen.size() < 3000000 && X.seen.insert(h).second) X.nontrivial++;
    if (X.sample.empty() && nontrivial) X.sample = sample.substr(0, 300);
}
static void finish(int rc) {
    printf("{\"evals\":%llu,\"nontrivial\":%llu,\"sample\":\"", (unsigned long long)X.evals, (unsigned long long)X.nontrivial);
    for (char c : X.sample) { if (c == '"' || c == '\\') putchar('\\'); if (c >= 32 && c < 127) putchar(c); }
    printf("\"}\n"); fflush(stdout); _exit(rc);
}
[[noreturn]] static void fail(const std::string &msg) {
    printf("FAIL %s\n", msg.c_str());
    finish(1); abort();
}
static std::string hex(const Bytes &b, size_t cap = 1 << 22) {
    static const char *d = "0123456789abcdef"; std::string s; size_t n = std::min(cap, b.size());
    s.reserve(2 * n + 4); for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n < b.size()) s += "..."; return s; }
static Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size() && isxdigit(s[i]); i += 2) b.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), 0, 16)); return b; }

// ---- oracles
// suffix array (with the empty suffix) of an integer string: prefix doubling, no sharing with the code under test
static std::vector<uint64_t> oracle_sa(const std::vector<uint64_t> &s, bool with_empty) {
    size_t n = s.size(); std::vector<uint64_t> sa(n);
    for (size_t i = 0; i < n; i++) sa[i] = i;
    if (n <= 64) {
        std::sort(sa.begin(), sa.end(), [&](uint64_t a, uint64_t b) {
            return std::lexicographical_compare(s.begin() + a, s.end(), s.begin() + b, s.end()); });
    } else {
        std::vector<uint64_t> vals(s); std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
        std::vector<uint64_t> rk(n), tmp(n), cnt, sa2(n);
        for (size_t i = 0; i < n; i++) rk[i] = std::lower_bound(vals.begin(), vals.end(), s[i]) - vals.begin() + 1;
        std::sort(sa.begin(), sa.end(), [&](uint64_t a, uint64_t b) { return rk[a] < rk[b]; });
        for (size_t h = 1;; h *= 2) {
            if (h > 1 || true) {
                // sort by (rk[i], rk[i+h]) with two counting passes
                size_t K = std::max<size_t>(n, vals.size()) + 2;
                size_t p = 0;
                for (size_t i = n - std::min(n, h); i < n; i++) sa2[p++] = i;          // second key 0
                // need order by second key: use current sa (sorted by rk for prefix length h)
                for (size_t i = 0; i < n; i++) if (sa[i] >= h) sa2[p++] = sa[i] - h;
                cnt.assign(K, 0);
                for (size_t i = 0; i < n; i++) cnt[rk[i]]++;
                for (size_t i = 1; i < K; i++) cnt[i] += cnt[i - 1];
                for (size_t i = n; i-- > 0;) sa[--cnt[rk[sa2[i]]]] = sa2[i];
            }
            tmp[sa[0]] = 1;
            auto k2 = [&](uint64_t i) { return i + h < n ? rk[i + h] : 0; };
            for (size_t i = 1; i < n; i++) tmp[sa[i]] = tmp[sa[i - 1]] + (rk[sa[i]] != rk[sa[i - 1]] || k2(sa[i]) != k2(sa[i - 1]));
            rk.swap(tmp);
            if (rk[sa[n - 1]] == n) break;
        }
    }
    if (with_empty) sa.insert(sa.begin(), n);
    return sa;
}
struct BwtO { Bytes b; uint64_t last; };
static BwtO oracle_bwt(const Bytes &t) {
    std::vector<uint64_t> s(t.begin(), t.end()); auto sa = oracle_sa(s, true);
    BwtO r; r.b.assign(t.size() + 1, 0); r.last = 0;
    for (size_t i = 0; i < sa.size(); i++) { if (sa[i] == 0) r.last = i; else r.b[i] = t[sa[i] - 1]; }
    return r;
}
// independent S* decomposition: types by comparing each suffix with its successor
struct Dec { std::vector<char> S; std::vector<uint64_t> star; /* S* positions in text order, without n */ };
static Dec oracle_dec(const Bytes &t) {
    Dec d; size_t n = t.size(); d.S.assign(n + 1, 0); d.S[n] = 1;
    for (size_t i = n; i-- > 0;) d.S[i] = i + 1 < n && (t[i] < t[i + 1] || (t[i] == t[i + 1] && d.S[i + 1]));
    for (size_t i = 1; i < n; i++) if (d.S[i] && !d.S[i - 1]) d.star.push_back(i);
    return d;
}

// ---- string generators
static Bytes g_exh_base = {0};
static Bytes enum_case(uint64_t idx) {           // enumerates short strings over several alphabets
    static const Bytes A[] = {{97, 98}, {0, 255}, {0, 1, 2}, {97, 98, 99}, {253, 254, 255}, {0, 1, 254, 255}};
    static const int L[] = {11, 9, 7, 7, 6, 5};
    for (int a = 0; a < 6; a++) {
        uint64_t c = A[a].size(), p = c;
        for (int n = 1; n <= L[a]; n++, p *= c) {
            if (idx < p) { Bytes b; for (int i = 0; i < n; i++) { b.push_back(A[a][idx % c]); idx /= c; } return b; }
            idx -= p;
        }
    }
    return Bytes();
}
static uint64_t rnd(Rng &g, uint64_t n) { return n ? g() % n : 0; }
static Bytes fib(size_t n, uint8_t a, uint8_t b) { Bytes x = {a}, y = {a, b}; while (y.size() < n) { Bytes z = y; z.insert(z.end(), x.begin(), x.end()); x = y; y = z; } y.resize(n); return y; }
// words whose S* substrings meet in one chain of the substring table (67777 heads) and fill more than one block
static Bytes chain_string(Rng &g) {
    const uint64_t H = 67777; uint64_t target = g() % H; std::vector<Bytes> w; size_t total = 0, want = 300 + rnd(g, 1500); uint64_t span = rnd(g, 3) ? 20 + rnd(g, 60) : 200; int lo = (int)rnd(g, 3);
    while (total < want) {
        Bytes x(1 + rnd(g, span)); for (auto &c : x) c = (uint8_t)(lo + 1 + rnd(g, 120)); std::sort(x.begin(), x.end());
        uint64_t h = (uint64_t)lo; for (uint8_t c : x) h = h * 101 + c;
        uint64_t top = x.back(); bool ok = false;
        for (uint64_t tries = 0; tries < 4 * H && !ok; tries++) {
            uint8_t e[4]; for (auto &c : e) c = (uint8_t)(top + rnd(g, 256 - top)); std::sort(e, e + 4);
            uint64_t k = h; for (uint8_t c : e) k = k * 101 + c; k = k * 101 + (uint64_t)lo;
            if (k % H == target) { x.insert(x.end(), e, e + 4); ok = true; } }
        if (!ok) break;
        w.push_back(x); total += x.size() + 5; }
    Bytes t; int rounds = 1 + (int)rnd(g, 2); bool sep = rnd(g, 2); for (int round = 0; round < rounds; round++) { for (auto &x : w) { t.push_back((uint8_t)lo); t.insert(t.end(), x.begin(), x.end()); } if (round == 0) std::reverse(w.begin(), w.end()); if (sep) { t.push_back((uint8_t)lo); t.push_back((uint8_t)(lo + 1 + rnd(g, 200))); } }
    t.push_back((uint8_t)lo); if (rnd(g, 2)) t.push_back((uint8_t)(lo + 1)); return t; }
static Bytes gen_string(Rng &g, size_t maxn) {
    if (maxn >= 400 && rnd(g, 200) == 0) return chain_string(g);
    size_t n = 1 + rnd(g, 1 + rnd(g, maxn));
    int al = 1 + (int)rnd(g, rnd(g, 4) ? 4 : 256); int base = rnd(g, 3) == 0 ? 0 : rnd(g, 3) == 0 ? 256 - al : (int)rnd(g, 257 - al);
    Bytes t(n);
    auto ch = [&](int k) { return (uint8_t)(base + k % al); };
    switch (rnd(g, 16)) {
    case 0: { t = fib(n, ch(0), ch(1)); break; }
    case 1: for (size_t i = 0; i < n; i++) t[i] = ch(__builtin_popcountll(i) & 1); break;                   // Thue-Morse
    case 2: { size_t p = 1 + rnd(g, std::min<size_t>(n, 40)); for (size_t i = 0; i < n; i++) t[i] = i < p ? ch((int)rnd(g, al)) : t[i - p];
              for (int k = (int)rnd(g, 3); k--;) t[rnd(g, n)] = ch((int)rnd(g, al)); break; }               // nearly periodic
    case 3: { size_t i = 0; while (i < n) { size_t r = 1 + rnd(g, rnd(g, 8) ? 6 : 600); uint8_t c = ch((int)rnd(g, al)); while (r-- && i < n) t[i++] = c; } break; } // runs
    case 4: for (size_t i = 0; i < n; i++) t[i] = (uint8_t)(i * 256 / n); break;                            // ascending
    case 5: for (size_t i = 0; i < n; i++) t[i] = (uint8_t)(255 - i * 256 / n); break;                      // descending
    case 6: { // colliding substrings: (x, y) and (x+1, y-101) have equal hash values
        size_t i = 0; uint8_t lo = (uint8_t)rnd(g, 20);
        while (i < n) { int k = (int)rnd(g, 3); uint8_t x = (uint8_t)(lo + 1 + rnd(g, 40)), y = (uint8_t)(150 + rnd(g, 100));
            uint8_t w[6] = {lo, x, y, lo, (uint8_t)(x + 1), (uint8_t)(y - 101)};
            for (int j = 0; j < 6 && i < n; j++) t[i++] = w[j];
            if (k == 0 && i < n) t[i++] = ch((int)rnd(g, al)); }
        break; }
    case 7: { // a long ascending-descending substring of chosen length, repeated with one change
        size_t len = 3 + rnd(g, n); const size_t specials[] = {255, 256, 257, 512, 768, 1024, 65535, 65536, 65537};
        if (rnd(g, 2)) len = specials[rnd(g, 9)];
        uint8_t a = (uint8_t)rnd(g, 100), b = (uint8_t)(a + 1 + rnd(g, 100));
        for (size_t i = 0; i < n; i++) t[i] = i % len == 0 ? a : b;
        if (rnd(g, 2)) t[rnd(g, n)] = (uint8_t)(b + 1);
        break; }
    case 8: for (size_t i = 0; i < n; i++) t[i] = ch((int)rnd(g, al)); { size_t z = rnd(g, n + 1); for (size_t i = n - z; i < n; i++) t[i] = 0; } break; // trailing zeros
    case 9: for (size_t i = 0; i < n; i++) t[i] = (uint8_t)g(); break;
    case 10: { // concatenation of a few words
        std::vector<Bytes> w; int k = 2 + (int)rnd(g, 5); for (int i = 0; i < k; i++) { Bytes x(1 + rnd(g, 12)); for (auto &c : x) c = ch((int)rnd(g, al)); w.push_back(x); }
        t.clear(); while (t.size() < n) { auto &x = w[rnd(g, k)]; t.insert(t.end(), x.begin(), x.end()); } t.resize(n); break; }
    case 11: for (size_t i = 0; i < n; i++) t[i] = rnd(g, 2) ? 0 : 255; break;
    case 12: { size_t i = 0; while (i < n) { size_t r = 1 + rnd(g, 300); for (size_t j = 0; j < r && i < n; j++) t[i++] = (uint8_t)(j * 255 / r); for (size_t j = rnd(g, 300); j-- && i < n;) t[i++] = (uint8_t)rnd(g, 3); } break; }
    default: for (size_t i = 0; i < n; i++) t[i] = ch((int)rnd(g, al));
        if (n > 4 && rnd(g, 2)) { size_t p = 1 + rnd(g, n / 2); for (size_t i = p; i < n; i++) t[i] = t[i - p]; }
    }
    return t;
}
static uint64_t size_class(Rng &g) {
    switch (rnd(g, 20)) { case 0: return 5000; case 1: case 2: return 1500; case 3: case 4: case 5: return 400; default: return 40; } }

/// calls f(string) on enumerated, then random strings until the budget is used; part/parts splits the work
static uint64_t enum_limit = UINT64_MAX;
template <class F> static void string_cases(F f, uint64_t max_big = 400000) {
    auto run = [&](const Bytes &t, const char *what) {
        note_case(std::string("string ") + what + " n=" + std::to_string(t.size()) + " hex=" + hex(t));
        f(t);
        count_case(fnv(t.data(), t.size()), t.size() > 2, std::string(what) + " n=" + std::to_string(t.size()) + " hex=" + hex(t, 60));
    };
    if (X.replay) { size_t p = X.replay_text.find("hex="); run(unhex(X.replay_text.substr(p + 4)), "replay"); return; }
    Rng g(X.seed * 1000003 + X.part);
    uint64_t e = X.part, r = 0;
#ifdef PLAIN   // built without sanitizers: large inputs
    for (uint64_t j = X.part; j == (uint64_t)X.part || more(); j += X.parts) {
        uint64_t N = max_big * X.scale; Bytes t(N / 2);
        switch (j % 9) {
        case 0: { t.resize(N); for (auto &c : t) c = (uint8_t)g(); run(t, "big-random"); break; }
        case 1: run(fib(N / 2, 97, 98), "big-fibonacci"); break;
        case 2: { for (size_t i = 0; i < t.size(); i++) t[i] = (uint8_t)(i % 65536 == 7 ? 1 : i % 65537 == 9 ? 3 : 2); run(t, "big-long-substrings"); break; }
        case 3: { size_t p = 70000 % t.size() + 1; for (size_t i = 0; i < t.size(); i++) t[i] = i < p ? (uint8_t)g() : t[i - p]; run(t, "big-period"); break; }
        case 4: { for (auto &c : t) c = (uint8_t)rnd(g, 2); run(t, "big-binary"); break; }
        case 5: { size_t i = 0; while (i < t.size()) { size_t len = 3 + rnd(g, 700); for (size_t j = 0; j < len && i < t.size(); j++) t[i++] = (uint8_t)(j == 0 ? 0 : 1 + j / 3); } run(t, "big-ramps"); break; }
        case 6: { for (auto &c : t) c = (uint8_t)rnd(g, 12); run(t, "big-small-alphabet"); break; }
        case 7: { for (auto &c : t) c = 120; for (size_t i = 0; i < t.size(); i += 1 + rnd(g, 4000)) t[i] = (uint8_t)g(); run(t, "big-runs"); break; }
        case 8: run(gen_string(g, max_big), "big-generated"); break;
        }
    }
    (void)e; (void)r;
#else
    while (more()) {
        Bytes t;
        if (e < enum_limit && (r & 1)) { t = enum_case(e); if (t.empty()) e = enum_limit; else { e += X.parts; run(t, "enumerated"); } r++; continue; }
        r++;
        if (r == 3 && max_big) { run(chain_string(g), "chain"); continue; }
        run(gen_string(g, std::min<uint64_t>(size_class(g), max_big ? max_big : 1000)), "random");
    }
#endif
}
/// zeroed address space of which only the touched pages need memory; NULL if there is none
static uint8_t *sparse(uint64_t bytes) { void *p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? NULL : (uint8_t *)p; }
/// buffer of exactly n+1 bytes with the terminating zero
struct Buf { uint8_t *p; size_t n; Buf(const Bytes &t) : p((uint8_t *)malloc(t.size() + 1)), n(t.size()) { if (n) memcpy(p, t.data(), n); p[n] = 0; } ~Buf() { free(p); } };

static void on_alarm(int) { const char m[] = "FAIL the call did not terminate within 60 s of processor time\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
void run_property();
int main(int argc, char **argv) {
    X.dir = argv[1]; X.seed = strtoull(argv[2], 0, 10); X.part = atoi(argv[3]); X.parts = atoi(argv[4]); X.budget = atof(argv[5]);
    if (argc > 6) { X.replay = true; FILE *f = fopen(argv[6], "r"); static char b[1 << 16]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) X.replay_text.append(b, k); fclose(f);
        size_t p = X.replay_text.find("CASE "); if (p != std::string::npos) { X.replay_text = X.replay_text.substr(p + 5); size_t e = X.replay_text.find('\n'); if (e != std::string::npos) X.replay_text.resize(e); } }
    X.t0 = std::chrono::steady_clock::now();
    if (const char *e = getenv("FLBWT_SCALE")) X.scale = std::max(1, atoi(e));   // larger inputs in the second search
    X.curcap = (size_t)(X.scale > 1 ? 32 : 8) << 20;
    std::string c = X.dir + "/case." + std::to_string(X.part);
    int fd = open(c.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (ftruncate(fd, X.curcap)) return 3;
    X.cur = (char *)mmap(0, X.curcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    signal(SIGALRM, on_alarm); signal(SIGPROF, on_alarm);
    run_property();
    finish(0);
}
