// Record codecs: lengths, links, names.
#include "common.hpp"
#include "hashtable.hpp"
static uint64_t rnd_far;
static int bytes_of(uint64_t m) { int b = 0; while (m) { b++; m >>= 8; } return b; }
static void one(uint64_t len, uint64_t ptr, uint64_t name, uint64_t nn) {
    note_case("codec " + std::to_string(len) + " " + std::to_string(ptr) + " " + std::to_string(name) + " " + std::to_string(nn));
    flbwt::HashTable h(1, nn); int nb = h.NAME_BYTES;
    std::string at = " (length " + std::to_string(len) + ")";
    {   // length header
        uint8_t b[32]; memset(b, 0xA5, 32); h.set_length(b + 8, len); int k = bytes_of(len);
        if (h.get_lenlen(b + 8) != k || h.calculate_lenlen(len) != k) fail("header size" + at);
        if (h.get_length(b + 8) != len) fail("decoded length is " + std::to_string(h.get_length(b + 8)) + at);
        if (h.string_info_length(b + 8, len) != 1 + 1 + k + len + nb) fail("record size" + at);
        if (h.get_first_character_pointer(b + 8) != b + 8 + 1 + k + 1) fail("first character position" + at);
        for (int i = 0; i < 32; i++) if ((i < 8 || i >= 8 + 1 + k) && b[i] != 0xA5) fail("length header changed another byte" + at);
    }
    {   // link
        uint8_t b[32]; memset(b, 0x5A, 32); h.set_pointer(b + 8, ptr);
        if (h.get_pointer(b + 8) != ptr) fail("decoded link is " + std::to_string(h.get_pointer(b + 8)) + ", stored " + std::to_string(ptr));
        if (h.get_length(b + 8) != 2) fail("link reads as length " + std::to_string(h.get_length(b + 8)));
        for (int i = 0; i < 32; i++) if ((i < 8 || i >= 18) && b[i] != 0x5A) fail("link changed another byte");
    }
    if (len <= 70000) { // name behind the characters
        uint64_t mask = nb >= 8 ? ~0ull : (1ull << (8 * nb)) - 1; name &= mask; int k = bytes_of(len); size_t tot = 8 + 1 + k + 1 + len + nb + 8;
        Bytes b(tot, 0xC3); h.set_length(&b[8], len); Bytes c = b; h.set_name(&b[8], name);
        if (h.get_name(&b[8]) != name) fail("decoded name is " + std::to_string(h.get_name(&b[8])) + ", stored " + std::to_string(name) + at);
        if (h.get_length(&b[8]) != len) fail("storing the name changed the length" + at);
        size_t f = 8 + 1 + k + 1 + len; for (size_t i = 0; i < tot; i++) if ((i < f || i >= f + nb) && b[i] != c[i]) fail("name changed another byte" + at);
    }
    else if (len < 1ull << 35 && (len >> 31 || rnd_far++ % 8 == 0)) { // name behind a long record, in address space that is mostly untouched
        static uint8_t *r = sparse((1ull << 35) + 4096);
        uint64_t mask = nb >= 8 ? ~0ull : (1ull << (8 * nb)) - 1; name &= mask; if (!name) name = 1; int k = bytes_of(len); uint64_t f = 1 + 1 + k + len;
        if (r) { h.set_length(r, len); h.set_name(r, name);
            if (h.get_name(r) != name) fail("decoded name is " + std::to_string(h.get_name(r)) + ", stored " + std::to_string(name) + at);
            if (h.get_length(r) != len) fail("storing the name changed the length" + at);
            uint64_t x = 0; for (int i = nb; i-- > 0;) x |= r[f + i];
            if (!x) fail("name not stored behind the characters" + at);
            for (int i = 0; i < 8; i++) if (r[f - 1 - i] || (i + nb < 16 && r[f + nb + i])) fail("name changed another byte" + at);
            memset(r, 0, 16); memset(r + f, 0, nb); }
    }
    count_case(fnv(&len, 8, ptr ^ name * 31), true, "length " + std::to_string(len) + " link " + std::to_string(ptr) + " name " + std::to_string(name));
}
void run_property() {
    if (X.replay) { unsigned long long a, b, c, d; sscanf(X.replay_text.c_str(), "codec %llu %llu %llu %llu", &a, &b, &c, &d); one(a, b, c, d); return; }
    Rng g(X.seed * 9 + X.part);
    auto nn = [&]() { return 1 + (g() >> (6 + rnd(g, 58))); };
    auto name = [&]() { return rnd(g, 4) ? g() : ~0ull << (8 * rnd(g, 8)); };
    if (X.part == 0) { for (uint64_t l = 1; l < 3000; l++) one(l, l * 77777777777ull, name(), nn());
        for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { uint64_t l = (1ull << b) + d; if (l) one(l, l, l, nn()); }
        for (int b = 0; b < 8; b++) for (int v = 1; v < 256; v++) for (int c = 0; c < 2; c++) { uint64_t l = ((uint64_t)v << (8 * b)) | (c ? 1 : 0); one(l, ~l, l, nn()); } }
    while (more()) { uint64_t l = g() >> rnd(g, 64); if (rnd(g, 3) == 0) l &= ~(0xffull << (8 * rnd(g, 8))); if (!l) l = 1; one(l, g() >> rnd(g, 64), name(), nn()); }
}
