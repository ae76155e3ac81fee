// Shortened string against the names found by definition.
#include "common.hpp"
#include "flbwt.hpp"
static bool lms_less(const Bytes &a, const Bytes &b) { size_t k = std::min(a.size(), b.size()); for (size_t i = 0; i < k; i++) if (a[i] != b[i]) return a[i] < b[i]; return a.size() > b.size(); }
void run_property() {
    string_cases([&](const Bytes &t) {
        size_t n = t.size(); if (!n) return;
        Dec d = oracle_dec(t); Bytes z = t; z.push_back(0);
        std::vector<Bytes> occ; for (size_t k = 0; k < d.star.size(); k++) { size_t e = k + 1 < d.star.size() ? d.star[k + 1] : n; occ.push_back(Bytes(z.begin() + d.star[k], z.begin() + e + 1)); }
        Buf b(t);
        std::unique_ptr<flbwt::Container> c(flbwt::extract_LMS_strings(b.p, n));
        uint8_t **s = flbwt::sort_LMS_strings(b.p, c.get());
        // names as given by the naming step (its order is another property)
        std::map<Bytes, uint64_t> name; flbwt::HashTable *h = c->hashtable;
        for (uint64_t i = 1; i <= c->num_of_unique_substrings; i++) { uint8_t *f = h->get_first_character_pointer(s[i]); name[Bytes(f, f + h->get_length(s[i]))] = h->get_name(s[i]); }
        flbwt::PackedArray *T1 = flbwt::create_shortened_string(b.p, n, c.get());
        if (T1->get_length() != occ.size() + 2) fail("shortened string has " + std::to_string(T1->get_length()) + " entries, expected " + std::to_string(occ.size() + 2));
        uint64_t U = std::set<Bytes>(occ.begin(), occ.end()).size();
        if (T1->get_integer_bits() < 64 && (U + 1) >> T1->get_integer_bits()) fail("entry width too small");
        auto eq = [&](uint64_t i, uint64_t want) { uint64_t got = T1->get_value(i); if (got != want) fail("entry " + std::to_string(i) + " is " + std::to_string(got) + ", expected " + std::to_string(want)); };
        eq(0, U + 1); eq(occ.size() + 1, 0);
        for (size_t i = 0; i < occ.size(); i++) { auto it = name.find(occ[i]); if (it == name.end()) fail("substring without a name"); eq(i + 1, it->second); }
        if (memcmp(b.p, t.data(), n) || b.p[n]) fail("the input string was changed");
        delete T1; free(s);
    });
}
