// Every single failing or short file operation, and invalid arguments.
#include "common.hpp"
#include "flbwt.hpp"
// fault plan: the k-th call of one kind fails
enum { OPEN_R, OPEN_W, READ, WRITE, CLOSE_W, SEEK, KINDS };
static const char *NAMES[] = {"fopen(input)", "fopen(output)", "fread", "fwrite", "fclose(output)", "fseek/ftell"};
static bool armed = false; static int fk, fi, fmode; static int cnt[KINDS]; static bool fired; static std::set<FILE *> wr;
static bool hit(int k) { if (!armed) return false; int i = cnt[k]++; if (k == fk && i == fi) { fired = true; return true; } return false; }
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *); long __real_ftell(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { bool w = m[0] == 'w' || m[0] == 'a'; if (hit(w ? OPEN_W : OPEN_R)) return NULL; FILE *f = __real_fopen(p, m); if (f && w) wr.insert(f); return f; }
int __wrap_fclose(FILE *f) { bool w = wr.erase(f); bool h = w && hit(CLOSE_W); int r = __real_fclose(f); return h ? EOF : r; }
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (n && hit(READ)) { size_t k = fmode == 0 ? 0 : fmode == 1 ? n - 1 : n / 2; return k ? __real_fread(p, s, k, f) : 0; } return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (n && hit(WRITE)) { size_t k = fmode == 0 ? 0 : fmode == 1 ? n - 1 : n / 2; return k ? __real_fwrite(p, s, k, f) : 0; } return __real_fwrite(p, s, n, f); }
long __wrap_ftell(FILE *f) { if (hit(SEEK)) return -1; return __real_ftell(f); }
}
static std::string P(const char *n) { return X.dir + "/p" + std::to_string(X.part) + n; }
static bool exists(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::string slurp(const std::string &p) { std::string b; FILE *f = __real_fopen(p.c_str(), "rb"); if (!f) return b; char buf[4096]; size_t k; while ((k = __real_fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, k); __real_fclose(f); return b; }
static void spit(const std::string &p, const std::string &s) { FILE *f = __real_fopen(p.c_str(), "wb"); __real_fwrite(s.data(), 1, s.size(), f); __real_fclose(f); }
static bool throws(const std::string &a, const std::string &b) {
    try { flbwt::bwt_file(a.c_str(), b.c_str()); } catch (const std::exception &) { armed = false; return true; } catch (...) { armed = false; fail("exception not derived from std::exception"); }
    armed = false; return false; }
static void file_fault(const Bytes &t, int k, int i, int mode) {
    std::string in = P("in"), out = P("out");
    note_case("fault kind=" + std::to_string(k) + " index=" + std::to_string(i) + " mode=" + std::to_string(mode) + " hex=" + hex(t));
    spit(in, std::string(t.begin(), t.end())); spit(out, "previous");
    fk = k; fi = i; fmode = mode; fired = false; memset(cnt, 0, sizeof cnt); wr.clear(); armed = true;
    bool th = throws(in, out);
    if (fired && !th) fail(std::string("returned normally although call ") + std::to_string(i + 1) + " of " + NAMES[k] + (mode == 0 ? " failed" : " fell short"));
    if (!fired && th) fail("exception without a fault");
    if (fired && (k == OPEN_R || k == READ || k == SEEK) && slurp(out) != "previous") fail(std::string("output file changed although ") + NAMES[k] + " failed");
    if (fired) count_case(fnv(t.data(), t.size(), k * 977 + i * 31 + mode), true, std::string("fault ") + NAMES[k] + " call " + std::to_string(i + 1) + " mode " + std::to_string(mode) + " on " + hex(t, 30));
    unlink(in.c_str()); unlink(out.c_str());
}
static void must(bool c, const std::string &m) { if (!c) fail(m); }
static void invalid(Rng &g) {
    note_case("invalid arguments");
    uint8_t z[4] = {1, 2, 3, 0};
    auto bad = [&](uint8_t *p, uint64_t n, const char *what) {
        for (int ff = 0; ff < 2; ff++) {
            bool th = false; try { flbwt::BWT_result *r = flbwt::bwt_string(p, n, ff); (void)r; } catch (const std::exception &) { th = true; } catch (...) { fail("exception not derived from std::exception"); }
            must(th, std::string("no exception for ") + what); } };
    bad(NULL, 0, "a null string of length 0"); bad(NULL, 5, "a null string"); bad(z, 0, "a string of length 0");
    std::string out = P("out"); unlink(out.c_str());
    must(throws(P("missing"), out), "no exception for a missing input file"); must(!exists(out), "output created although the input is missing");
    std::string in = P("in"); spit(in, ""); must(throws(in, out), "no exception for an empty input file"); must(!exists(out), "output created although the input is empty");
    spit(out, "previous"); must(throws(in, out), "no exception for an empty input file"); must(slurp(out) == "previous", "output changed although the input is empty");
    must(throws(P("missing"), out), "no exception for a missing input file"); must(slurp(out) == "previous", "output changed although the input is missing");
    must(throws(X.dir, out), "no exception for a directory as input"); must(slurp(out) == "previous", "output changed although the input is a directory");
    spit(in, "banana"); must(throws(in, X.dir + "/nodir/out"), "no exception for an output that cannot be created");
    must(throws(in, X.dir), "no exception for a directory as output");
    struct stat st; if (stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode)) {
        must(throws(in, "/dev/full"), "no exception for a full device (small)");
        Bytes t(20000); for (auto &c : t) c = (uint8_t)(97 + g() % 2); spit(in, std::string(t.begin(), t.end())); must(throws(in, "/dev/full"), "no exception for a full device (large)"); }
    unlink(in.c_str()); unlink(out.c_str());
    count_case(1, true, "invalid arguments");
}
void run_property() {
    Rng g(X.seed * 77 + X.part);
    if (X.replay) {
        int k, i, m; if (sscanf(X.replay_text.c_str(), "fault kind=%d index=%d mode=%d", &k, &i, &m) == 3) file_fault(unhex(X.replay_text.substr(X.replay_text.find("hex=") + 4)), k, i, m); else invalid(g);
        finish(0); }
    invalid(g);
    while (more()) {
        Bytes t = gen_string(g, rnd(g, 10) ? 30 : 600);
        // strings whose rank is first, last or in between behave differently: also use the sorted extremes
        if (rnd(g, 3) == 0) { std::sort(t.begin(), t.end()); if (rnd(g, 2)) std::reverse(t.begin(), t.end()); }
        for (int k = 0; k < KINDS; k++) for (int i = 0; i < 4; i++) for (int m = 0; m < ((k == READ || k == WRITE) ? 3 : 1); m++) { file_fault(t, k, i, m); if (!fired) break; }
    }
}
