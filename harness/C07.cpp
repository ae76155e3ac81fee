// Queue histories against std::deque; several queues at a time.
#include "common.hpp"
#include "queue.hpp"
static void one(uint64_t seed) {
    Rng g(seed);
    uint8_t w = (uint8_t)(1 + rnd(g, 63)); uint64_t mask = (1ull << w) - 1;
    int nq = 1 + (int)rnd(g, 3);
    std::vector<std::unique_ptr<flbwt::Queue>> q; std::vector<std::deque<uint64_t>> d(nq);
    for (int i = 0; i < nq; i++) q.emplace_back(new flbwt::Queue(w));
    int phases = 1 + (int)rnd(g, 8);
    for (int p = 0; p < phases; p++) {
        int pe = (int)rnd(g, 10), pl = (int)rnd(g, 10), pd = (int)rnd(g, 14); if (rnd(g, 4) == 0) pl = 0; if (rnd(g, 4) == 0) pe = 0;
        if (pe + pl + pd == 0) pd = 1;
        static const uint64_t L[] = {5, 100, 1023, 1024, 1025, 2050, 5000}; uint64_t len = L[rnd(g, 7)];
        for (uint64_t k = 0; k < len; k++) {
            int i = (int)rnd(g, nq); int o = (int)rnd(g, pe + pl + pd); uint64_t v = (rnd(g, 6) ? g() : mask) & mask;
            if (q[i]->is_empty() != d[i].empty()) fail("emptiness is " + std::to_string(q[i]->is_empty()) + " with " + std::to_string(d[i].size()) + " elements");
            if (o < pe) { q[i]->enqueue(v); d[i].push_back(v); }
            else if (o < pe + pl) { q[i]->enqueue_l(v); d[i].push_front(v); }
            else if (!d[i].empty()) { uint64_t x = (uint64_t)q[i]->dequeue(); if (x != d[i].front()) fail("removed " + std::to_string(x) + ", expected " + std::to_string(d[i].front()) + " with " + std::to_string(d[i].size()) + " elements, width " + std::to_string(w)); d[i].pop_front(); }
        }
        if (rnd(g, 3) == 0) for (int i = 0; i < nq; i++) while (!d[i].empty()) { if (q[i]->is_empty()) fail("empty too early"); uint64_t x = (uint64_t)q[i]->dequeue(); if (x != d[i].front()) fail("removed " + std::to_string(x) + ", expected " + std::to_string(d[i].front()) + " while draining"); d[i].pop_front(); }
    }
    if (rnd(g, 2)) for (int i = 0; i < nq; i++) { while (!d[i].empty()) { uint64_t x = (uint64_t)q[i]->dequeue(); if (x != d[i].front()) fail("removed " + std::to_string(x) + ", expected " + std::to_string(d[i].front()) + " while draining"); d[i].pop_front(); } if (!q[i]->is_empty()) fail("not empty after removing everything"); }
    count_case(seed, true, "history seed " + std::to_string(seed) + ": " + std::to_string(nq) + " queues of width " + std::to_string(w) + ", " + std::to_string(phases) + " phases");
}
#ifdef PLAIN
// more than 2^32 elements in one queue
static void long_queue(uint64_t seed) {
    note_case("long " + std::to_string(seed)); { struct itimerval tv = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &tv, NULL); alarm(0); }
    flbwt::Queue q(1); uint64_t n = (1ull << 32) + 700; auto v = [&](uint64_t i) { return (i * 0x9e3779b97f4a7c15ull + seed) >> 63; };
    for (uint64_t i = 0; i < n; i++) { q.enqueue(v(i)); if (i >= (1ull << 32) - 3 && q.is_empty()) fail("empty with " + std::to_string(i + 1) + " elements"); }
    for (uint64_t i = 0; i < n; i++) { if (q.is_empty()) fail("empty with " + std::to_string(n - i) + " elements"); uint64_t x = (uint64_t)q.dequeue(); if (x != v(i)) fail("removed " + std::to_string(x) + ", expected " + std::to_string(v(i)) + " with " + std::to_string(n - i) + " elements"); }
    if (!q.is_empty()) fail("not empty with 0 elements");
    count_case(seed, true, "queue of " + std::to_string(n) + " elements");
}
#endif
void run_property() {
#ifdef PLAIN
    if (X.replay ? X.replay_text.compare(0, 4, "long") == 0 : X.scale > 1 && X.part % 4 == 0) { long_queue(1); return; }
#endif
    if (X.replay) { one(strtoull(X.replay_text.c_str() + 5, 0, 10)); return; }
    for (uint64_t k = 0; more(); k++) { uint64_t s = (X.seed << 40) + (uint64_t)X.part * 1000000007ull + k; note_case("seed " + std::to_string(s)); one(s); }
}
