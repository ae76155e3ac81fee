// Width computation on all kinds of numbers; widths chosen along the pipeline against the values stored.
#include "common.hpp"
#include "flbwt.hpp"
#include "utility.hpp"
static void num(uint64_t x) { int b = 0; for (uint64_t y = x; y; y >>= 1) b++; int got = flbwt::position_of_msb(x); if (got != b) fail("bit length of " + std::to_string(x) + " computed as " + std::to_string(got) + ", is " + std::to_string(b)); count_case(x, true, "number " + std::to_string(x)); }
static void names(uint64_t n) { flbwt::HashTable h(1, n); uint64_t mx = n / 2 + 1; if (h.NAME_BYTES < 8 && mx >> (8 * h.NAME_BYTES)) fail("name width of " + std::to_string(h.NAME_BYTES) + " bytes for length " + std::to_string(n)); if (h.NAME_BYTES > 8) fail("name width above 8 bytes"); count_case(n, true, "length " + std::to_string(n)); }
void run_property() {
    if (X.replay && X.replay_text.compare(0, 6, "number") == 0) { num(strtoull(X.replay_text.c_str() + 7, 0, 10)); return; }
    if (X.replay && X.replay_text.compare(0, 6, "length") == 0) { names(strtoull(X.replay_text.c_str() + 7, 0, 10)); return; }
    auto N = [&](uint64_t x) { if (x) { note_case("number " + std::to_string(x)); num(x); } };
    auto H = [&](uint64_t x) { if (x) { note_case("length " + std::to_string(x)); names(x); } };
    if (!X.replay) {
        Rng g(X.seed + X.part);
        for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) { N((1ull << b) + d); if (b < 58) H((1ull << b) + d); }
        for (uint64_t x = 1; x < 70000; x++) N(x);
        for (int k = 0; k < 20000; k++) { N(g() >> rnd(g, 64)); if (k % 10 == 0) H(g() >> (6 + rnd(g, 58))); }
        for (uint64_t x = 1; x < 1100; x++) H(x);
        for (uint64_t x = 131000; x < 131200; x++) H(x);
    }
    string_cases([&](const Bytes &t) {
        size_t n = t.size(); if (!n) return;
        Buf b(t);
        std::unique_ptr<flbwt::Container> c(flbwt::extract_LMS_strings(b.p, n));
        uint8_t **s = flbwt::sort_LMS_strings(b.p, c.get()); flbwt::HashTable *h = c->hashtable; uint64_t U = c->num_of_unique_substrings;
        if (h->NAME_BYTES < 8 && (U + 1) >> (8 * h->NAME_BYTES)) fail("stored name width too small");
        for (uint64_t i = 0; i < U + 2; i++) { if (h->get_name(s[i]) != i) fail("name " + std::to_string(i) + " stored as " + std::to_string(h->get_name(s[i])));
            uint64_t l = h->get_length(s[i]); uint8_t *f = h->get_first_character_pointer(s[i]); uint64_t hi = f + l - 1 - c->bwp_base, lo = f - c->bwp_base;
            if (i && c->bwp_width < 64 && hi >> c->bwp_width) fail("queue width too small for record " + std::to_string(i));
            if (f < c->bwp_base || lo > hi + 1) fail("offset base above a record");
            if (hi > c->sa_max_value) fail("offset of record " + std::to_string(i) + " exceeds sa_max_value"); }
        flbwt::PackedArray *T1 = flbwt::create_shortened_string(b.p, n, c.get());
        if (T1->get_integer_bits() < 64 && (U + 1) >> T1->get_integer_bits()) fail("name width of the shortened string too small");
        if (T1->get_value(0) != U + 1) fail("largest name truncated");
        delete T1; free(s);
    }, 300000);
}
