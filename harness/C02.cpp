// File transform: layout of the output file against an independent BWT; with a stand-in result also for huge ranks.
#include "common.hpp"
#include "flbwt.hpp"
static std::string P(const char *n) { return X.dir + "/p" + std::to_string(X.part) + n; }
static Bytes slurp(const std::string &p) { Bytes b; FILE *f = fopen(p.c_str(), "rb"); if (!f) fail("no output file"); uint8_t buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k); fclose(f); return b; }
void run_property() {
    uint64_t k = 0;
    string_cases([&](const Bytes &t) {
        if (t.empty()) return;
        std::string in = P("in"), out = P("out");
        FILE *f = fopen(in.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
        unlink(out.c_str());
        if (k++ % 2 || X.replay) { f = fopen(out.c_str(), "wb"); Bytes junk(t.size() + 100, 0xEE); fwrite(junk.data(), 1, junk.size(), f); fclose(f); }
        try { flbwt::bwt_file(in.c_str(), out.c_str()); } catch (const std::exception &e) { fail(std::string("exception for a readable file: ") + e.what()); }
        BwtO o = oracle_bwt(t);
        Bytes want; for (int i = 7; i >= 0; i--) want.push_back((uint8_t)(o.last >> (8 * i)));
        for (size_t i = 0; i <= t.size(); i++) if (i != o.last) want.push_back(o.b[i]);
        Bytes got = slurp(out);
        if (got.size() != want.size()) fail("output has " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) fail("output byte " + std::to_string(i) + " is " + std::to_string(got[i]) + ", expected " + std::to_string(want[i]) + " (rank " + std::to_string(o.last) + ")");
        if (slurp(in) != t) fail("the input file was changed");
        unlink(in.c_str()); unlink(out.c_str());
    });
}
