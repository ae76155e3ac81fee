// The five induction routines, each given the true order of the S* suffixes.
#include "common.hpp"
#include "flbwt.hpp"
#include "induce32bit.hpp"
#include "induce40bit.hpp"
#include "induce48bit.hpp"
#include "induce56bit.hpp"
#include "induce64bit.hpp"
#include <sys/mman.h>
static uint64_t sparse_no = 0, sparse_bad = 0;
/// far: the stored copies lie far apart (in a sparse mapping), so that positions use the whole width
static void one(const Bytes &t, int w, int far = 0) {
    size_t n = t.size(); BwtO o = oracle_bwt(t); Dec d = oracle_dec(t);
    Buf b(t);
    std::unique_ptr<flbwt::Container> c(flbwt::extract_LMS_strings(b.p, n));
    uint8_t **s = flbwt::sort_LMS_strings(b.p, c.get());
    flbwt::HashTable *h = c->hashtable;
    std::map<Bytes, uint8_t *> rec; Bytes z = t; z.push_back(0);
    for (uint64_t i = 1; i <= c->num_of_unique_substrings; i++) { uint8_t *f = h->get_first_character_pointer(s[i]); rec[Bytes(f, f + h->get_length(s[i]))] = s[i]; }
    // sorted S* suffixes (n first), each leading to the record of the substring that ENDS at it
    std::vector<uint64_t> ts(t.begin(), t.end()); auto sa = oracle_sa(ts, true);
    std::map<uint64_t, uint8_t *> at; uint64_t prev = 0;
    std::vector<uint64_t> stars(d.star); stars.push_back(n);
    for (size_t k = 0; k < stars.size(); k++) { at[stars[k]] = k == 0 ? s[c->num_of_unique_substrings + 1] : rec[Bytes(z.begin() + prev, z.begin() + stars[k] + 1)]; prev = stars[k]; }
    struct Map { uint8_t *p = NULL; size_t n = 0; ~Map() { if (p) munmap(p, n); } } sp;
    if (far) {
        uint64_t u = c->num_of_unique_substrings, total = 0; std::vector<uint64_t> szs;
        for (uint64_t i = 0; i < u + 2; i++) total += 4096 + h->get_length(s[i]);
        static const int SPAN[] = {31, 39, 44, 44, 44}; sp.n = (size_t)1 << SPAN[w]; if (far == 2 && w > 0) sp.n = (size_t)1 << (33 + (sparse_no++ % 6));
        void *m = total * 2 > sp.n ? MAP_FAILED : mmap(NULL, sp.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { sp.n = 0; sparse_bad++; }
        else {
            sp.p = (uint8_t *)m; uint64_t lo = ~0ull, hi = 0, room = (sp.n - total - 8192) / (u + 2), at0 = 16; Rng g(t.size() * 31 + u);
            std::vector<uint64_t> ord; for (uint64_t i = 1; i < u + 2; i++) ord.push_back(i);
            std::shuffle(ord.begin(), ord.end(), g); ord.push_back(0);
            std::map<uint8_t *, uint8_t *> mv; uint8_t *np = NULL;
            for (uint64_t i : ord) {                     // the record at the far end of its share of the mapping
                at0 += room; np = sp.p + at0; size_t sz = 2 + h->get_lenlen(s[i]) + h->get_length(s[i]) + 8;
                memcpy(np, s[i], 2 + h->get_lenlen(s[i]) + h->get_length(s[i])); mv[s[i]] = np; at0 += sz;
                lo = std::min<uint64_t>(lo, np - sp.p); hi = std::max<uint64_t>(hi, np - sp.p);
            }
            for (auto &x : rec) x.second = mv[x.second];
            for (auto &x : at) x.second = mv[x.second];
            c->lastptr = h->get_first_character_pointer(mv[s[u + 1]]);
            c->min_ptr = sp.p + lo; c->max_ptr = sp.p + hi; c->bwp_base = c->min_ptr - 1; c->bwp_width = 0; while (hi - lo + 2 >> c->bwp_width) c->bwp_width++;
        }
    }
    std::vector<uint64_t> off; for (uint64_t p : sa) { auto it = at.find(p); if (it != at.end()) { if (!it->second) fail("no stored copy"); off.push_back(h->get_first_character_pointer(it->second) + h->get_length(it->second) - 1 - c->bwp_base); } }
    free(s);
    size_t m = off.size() + 1; flbwt::BWT_result *r = NULL; static const int WB[] = {32, 40, 48, 56, 64};
    if (w == 0) { int32_t *A = new int32_t[m]; for (size_t i = 0; i < off.size(); i++) A[i] = (int32_t)off[i]; r = flbwt::induce_bwt_32bit(A, c.get()); }
    if (w == 1 || w == 2) { uint32_t *L = new uint32_t[m]; for (size_t i = 0; i < off.size(); i++) L[i] = (uint32_t)off[i];
        if (w == 1) { int8_t *U = new int8_t[m]; for (size_t i = 0; i < off.size(); i++) U[i] = (int8_t)(off[i] >> 32); r = flbwt::induce_bwt_40bit(L, U, c.get()); }
        else { int16_t *U = new int16_t[m]; for (size_t i = 0; i < off.size(); i++) U[i] = (int16_t)(off[i] >> 32); r = flbwt::induce_bwt_48bit(L, U, c.get()); } }
    if (w == 3) { uint32_t *L = new uint32_t[m]; uint16_t *M = new uint16_t[m]; int8_t *U = new int8_t[m]; for (size_t i = 0; i < off.size(); i++) { L[i] = (uint32_t)off[i]; M[i] = (uint16_t)(off[i] >> 32); U[i] = (int8_t)(off[i] >> 48); } r = flbwt::induce_bwt_56bit(L, M, U, c.get()); }
    if (w == 4) { int64_t *A = new int64_t[m]; for (size_t i = 0; i < off.size(); i++) A[i] = (int64_t)off[i]; r = flbwt::induce_bwt_64bit(A, c.get()); }
    std::string who = "induce_bwt_" + std::to_string(WB[w]) + "bit: ";
    if (r->last != o.last) fail(who + "rank is " + std::to_string(r->last) + ", expected " + std::to_string(o.last));
    for (size_t i = 0; i <= n; i++) if (i != o.last && r->BWT[i] != o.b[i]) fail(who + "entry " + std::to_string(i) + " is " + std::to_string(r->BWT[i]) + ", expected " + std::to_string(o.b[i]));
    delete[] r->BWT; free(r);
}
void run_property() {
    uint64_t k = X.part;
    string_cases([&](const Bytes &t) { if (t.empty()) return; if (X.replay) { for (int w = 0; w < 5; w++) for (int f = 0; f < 3; f++) one(t, w, f); } else { one(t, (int)(k % 5), t.size() < 2000 && k % 3 == 1 ? 1 + (int)(k / 15 % 2) : 0); k++; } }, 300000);
}
