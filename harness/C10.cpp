// Naming order of the distinct S* substrings, checked on the stored records.
#include "common.hpp"
#include "flbwt.hpp"
typedef std::vector<int> Sub;
static bool lms_less(const Bytes &a, const Bytes &b) { size_t k = std::min(a.size(), b.size()); for (size_t i = 0; i < k; i++) if (a[i] != b[i]) return a[i] < b[i]; return a.size() > b.size(); }
void run_property() {
    string_cases([&](const Bytes &t) {
        size_t n = t.size(); if (!n) return;
        Dec d = oracle_dec(t); Bytes z = t; z.push_back(0);
        std::set<Bytes> u; for (size_t k = 0; k < d.star.size(); k++) { size_t e = k + 1 < d.star.size() ? d.star[k + 1] : n; u.insert(Bytes(z.begin() + d.star[k], z.begin() + e + 1)); }
        std::vector<Bytes> want(u.begin(), u.end()); std::sort(want.begin(), want.end(), lms_less);
        Buf b(t);
        std::unique_ptr<flbwt::Container> c(flbwt::extract_LMS_strings(b.p, n));
        uint8_t **s = flbwt::sort_LMS_strings(b.p, c.get());
        flbwt::HashTable *h = c->hashtable;
        if (c->num_of_unique_substrings != want.size()) fail("wrong number of distinct substrings");
        auto in = [&](uint8_t *p, uint64_t k) { return p >= h->buf && p + k <= h->buf + h->bufsize; };
        for (size_t i = 0; i < want.size(); i++) {
            uint8_t *q = s[i + 1]; if (!in(q, 1)) fail("record of name " + std::to_string(i + 1) + " outside the table");
            uint64_t l = h->get_length(q), nm = h->get_name(q); uint8_t *f = h->get_first_character_pointer(q);
            if (nm != i + 1) fail("record " + std::to_string(i + 1) + " carries the name " + std::to_string(nm));
            if (l != want[i].size() || !in(f, l) || memcmp(f, want[i].data(), l)) fail("name " + std::to_string(i + 1) + " leads to " + hex(Bytes(f, f + std::min<uint64_t>(l, 40)), 40) + ", expected " + hex(want[i], 40));
            if (f[-1] <= f[0]) fail("byte in front of the copy for name " + std::to_string(i + 1) + " is not greater");
        }
        { uint8_t *q = s[want.size() + 1]; uint64_t he = d.star.empty() ? n : d.star[0]; uint64_t l = h->get_length(q); uint8_t *f = h->get_first_character_pointer(q);
          if (h->get_name(q) != want.size() + 1) fail("leading part carries the name " + std::to_string(h->get_name(q)));
          if (l != he + 1 || !in(f, l) || memcmp(f, z.data(), l)) fail("stored leading part differs from the text");
          if (c->lastptr != f) fail("lastptr does not point to the copy of the first byte of the string");
          uint8_t *e = s[0]; if (!in(e, 1) || h->get_length(e) != 1 || h->get_name(e) != 0) fail("end marker record"); }
        uint8_t *mn = s[0], *mx = s[0]; for (size_t i = 0; i < want.size() + 2; i++) { mn = std::min(mn, s[i]); mx = std::max(mx, s[i]); }
        if (c->bwp_base >= mn) fail("offset base not below every record");
        for (size_t i = 1; i < want.size() + 2; i++) { uint64_t off = h->get_first_character_pointer(s[i]) + h->get_length(s[i]) - 1 - c->bwp_base; if (c->bwp_width < 64 && off >> c->bwp_width) fail("offset of record " + std::to_string(i) + " does not fit the queue width"); if (off > c->sa_max_value) fail("offset of record " + std::to_string(i) + " exceeds sa_max_value"); }
        free(s);
    });
}
