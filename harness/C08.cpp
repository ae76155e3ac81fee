// Substring table histories against std::map; small tables force every kind of collision.
#include "common.hpp"
#include "hashtable.hpp"
using flbwt::HashTable;
// all stored records, walked the way the naming step does
static std::map<Bytes, uint8_t *> walk(HashTable &h) {
    std::map<Bytes, uint8_t *> r;
    for (uint64_t i = 0; i < h.HTSIZE; i++) { uint64_t p = h.head[i]; uint64_t guard = 0;
        while (p != 0) { if (p >= h.bufsize || ++guard > h.bufsize) fail("chain leaves the buffer");
            uint8_t *q = &h.buf[p]; uint64_t l = h.get_length(q); if (l == 0) break; if (l == 2) { p = h.get_pointer(q); continue; }
            uint8_t *c = h.get_first_character_pointer(q); if (c + l > h.buf + h.bufsize) fail("record leaves the buffer");
            if (!r.insert({Bytes(c, c + l), q}).second) fail("a string is stored twice"); p += h.string_info_length(q, l); } }
    return r; }
static void one(uint64_t seed) {
    Rng g(seed);
    static const uint64_t HS[] = {1, 2, 3, 7, 101, 5000, 67777, 140000}; uint64_t hs = HS[rnd(g, 40) ? rnd(g, 6) : 6 + rnd(g, 2)];
    uint64_t n = rnd(g, 3) ? 1 + rnd(g, 2000) : 1 + (g() >> (20 + rnd(g, 40)));
    HashTable h(hs, n);
    std::map<Bytes, uint64_t> m; std::vector<Bytes> list;
    int al = 1 + (int)rnd(g, 4); uint64_t ml = rnd(g, 5) == 0 ? 700 : 12; uint64_t ops = 10 + rnd(g, ml > 100 ? 60 : 250);
    auto mk = [&]() { Bytes s(3 + rnd(g, ml)); if (rnd(g, 40) == 0) s.resize(rnd(g, 2) ? 256 : 512); if (rnd(g, 400) == 0) s.resize(65536);
        if (rnd(g, 3) == 0 && !list.empty()) { Bytes p = list[rnd(g, list.size())]; if (rnd(g, 2) && p.size() > 3) p.resize(p.size() - 1); else p.push_back((uint8_t)rnd(g, al)); if (p.size() >= 2 && rnd(g, 2) && p[0] < 255 && p[1] >= 101) { p[0]++; p[1] -= 101; } return p; }
        for (auto &c : s) c = (uint8_t)(rnd(g, 6) ? rnd(g, al) : g()); return s; };
    auto str = [](const Bytes &s) { return hex(s, 40); };
    uint64_t maxname = h.NAME_BYTES >= 8 ? ~0ull : (1ull << (8 * h.NAME_BYTES)) - 1, top = n / 2 + 1; // every name up to n / 2 + 1 has to fit
    auto clip = [&](uint64_t v) { return v <= top ? v : std::min(v, std::max(maxname, top)); };
    for (uint64_t k = 0; k < ops; k++) {
        Bytes s = (!list.empty() && rnd(g, 4) == 0) ? list[rnd(g, list.size())] : mk(); if (s.size() < 3) continue;
        // the string lies in a larger text: the byte in front of it exists
        std::vector<uint8_t> text(s.size() + 2); memcpy(&text[1], s.data(), s.size()); text[0] = (uint8_t)g(); text[s.size() + 1] = (uint8_t)g();
        std::vector<uint8_t> copy(text);
        bool isnew = !m.count(s);
        uint8_t r = h.insert_string(s.size(), &text[1]);
        if ((r != 0) != isnew) fail("insertion of " + str(s) + " reports " + std::to_string(r) + " although it is " + (isnew ? "new" : "known"));
        if (text != copy) fail("inserted string changed");
        if (isnew) { m[s] = 0; list.push_back(s); }
        if (rnd(g, 12) == 0 || k + 1 == ops) {
            auto all = walk(h);
            for (auto &e : m) if (!all.count(e.first)) fail("string " + str(e.first) + " is lost");
            if (all.size() != m.size()) fail("the table holds " + std::to_string(all.size()) + " strings, expected " + std::to_string(m.size()));
        }
    }
    auto all = walk(h);
    for (int round = 0; round < 2; round++) {
        uint64_t c = 0;
        for (auto &e : m) { uint64_t v = round ? clip(++c) : rnd(g, 4) ? (g() & maxname) : top - std::min<uint64_t>(top - 1, rnd(g, 3)); h.set_name(all[e.first], v); e.second = v; }
        for (auto &e : m) { std::vector<uint8_t> s(e.first); s.push_back((uint8_t)g()); uint64_t v;
            try { v = h.find_name(e.first.size(), s.data()); } catch (const std::exception &) { fail("look-up of stored string " + str(e.first) + " reports an error"); }
            if (v != e.second) fail("look-up of " + str(e.first) + " returns " + std::to_string(v) + ", last named " + std::to_string(e.second)); }
    }
    auto after = walk(h); if (after.size() != m.size()) fail("naming changed the stored strings");
    for (int k = 0; k < 30; k++) { Bytes s = mk(); if (s.size() < 3 || m.count(s)) continue; bool th = false; uint64_t v = 0;
        try { v = h.find_name(s.size(), s.data()); } catch (const std::exception &) { th = true; } catch (...) { fail("exception not derived from std::exception"); }
        if (!th) fail("look-up of unknown string " + str(s) + " returns " + std::to_string(v)); }
    count_case(seed, true, "history seed " + std::to_string(seed) + ": table size " + std::to_string(hs) + ", " + std::to_string(m.size()) + " strings");
}
void run_property() {
    if (X.replay) { one(strtoull(X.replay_text.c_str() + 5, 0, 10)); return; }
    for (uint64_t k = 0; more(); k++) { uint64_t s = (X.seed << 40) + (uint64_t)X.part * 1000000007ull + k; note_case("seed " + std::to_string(s)); one(s); }
}
