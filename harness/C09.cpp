// Decomposition statistics against the definition.
#include "common.hpp"
#include "flbwt.hpp"
void run_property() {
    string_cases([&](const Bytes &t) {
        size_t n = t.size(); if (!n) return;
        Dec d = oracle_dec(t);
        std::vector<uint64_t> M(258, 0), NL(258, 0), C(258, 0); M[0] = 1; C[0] = 1;
        for (size_t i = 0; i < n; i++) { M[t[i] + 1]++; if (!d.S[i]) NL[t[i] + 1]++; }
        std::set<Bytes> uniq;
        for (size_t k = 0; k < d.star.size(); k++) { C[t[d.star[k]] + 1]++; size_t e = k + 1 < d.star.size() ? d.star[k + 1] : n; Bytes s(t.begin() + d.star[k], t.begin() + std::min(e + 1, n)); if (e == n) s.push_back(0); s.push_back(e == n && false); uniq.insert(s); }
        Buf b(t);
        std::unique_ptr<flbwt::Container> c(flbwt::extract_LMS_strings(b.p, n));
        auto eq = [&](const char *w, uint64_t got, uint64_t want) { if (got != want) fail(std::string(w) + " is " + std::to_string(got) + ", expected " + std::to_string(want)); };
        for (int i = 0; i < 258; i++) { eq(("occurrences[" + std::to_string(i) + "]").c_str(), c->M[i], M[i]); eq(("L-type occurrences[" + std::to_string(i) + "]").c_str(), c->NL[i], NL[i]); eq(("S* starts[" + std::to_string(i) + "]").c_str(), c->C[i], C[i]); }
        eq("number of S* substrings", c->num_of_substrings, d.star.size());
        eq("number of distinct S* substrings", c->num_of_unique_substrings, uniq.size());
        eq("end of the leading part", c->head_string_end, d.star.empty() ? n : d.star[0]);
        eq("length", c->n, n);
        if (memcmp(b.p, t.data(), n) || b.p[n]) fail("the input string was changed");
    });
}
