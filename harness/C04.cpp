// Ownership: allocation balance, read-only input, matching deallocators (AddressSanitizer), file transform on every exit.
#include "common.hpp"
#include <sanitizer/allocator_interface.h>
#include <dirent.h>
#include "flbwt.hpp"
#ifdef HAVE_HOOK
extern uint8_t flbwt_verify_min_bits;
#endif
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
static std::string P(const char *n) { return X.dir + "/p" + std::to_string(X.part) + n; }
static void file_case(const Bytes &t, int kind) {
    std::string in = P("in"), out = P("out");
    FILE *f = fopen(in.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    unlink(out.c_str());
    std::string a = in, b = out;
    if (kind == 1) a = P("missing");
    if (kind == 2) b = X.dir + "/nodir/out";
    if (kind == 3) b = "/dev/full";
    if (kind == 4) a = X.dir;                  // a directory
    { // warm up lazily allocated library state
        static bool w = false; if (!w) { w = true; try { throw std::runtime_error("x"); } catch (...) {} } }
    int f0 = fds(); size_t l0 = live();
    bool threw = false;
    try { flbwt::bwt_file(a.c_str(), b.c_str()); } catch (const std::exception &) { threw = true; } catch (...) { fail("exception not derived from std::exception"); }
    size_t l1 = live(); int f1 = fds();
    std::string k = " in file case kind " + std::to_string(kind) + (threw ? " (exception)" : "");
    if (f1 != f0) fail("open files changed from " + std::to_string(f0) + " to " + std::to_string(f1) + k);
    if (l1 != l0) fail("allocated bytes changed from " + std::to_string(l0) + " to " + std::to_string(l1) + k);
    unlink(in.c_str()); unlink(out.c_str());
}
void run_property() {
    uint64_t k = 0;
    string_cases([&](const Bytes &t) {
        size_t n = t.size();
        k++;
        if (n) for (int ff = 0; ff < 2; ff++) {
            size_t l0 = live();
#ifdef HAVE_HOOK
            static const int W[] = {0, 32, 40, 48, 56};
            flbwt_verify_min_bits = (uint8_t)W[(k + ff) % 5];
#endif
            uint8_t *p = (uint8_t *)malloc(n + 1); memcpy(p, t.data(), n); p[n] = 0;
            flbwt::BWT_result *r = flbwt::bwt_string(p, n, ff);
            if (!ff) {
                if (memcmp(p, t.data(), n) || p[n]) fail("the input string was changed");
                free(p);                                        // still ours
            } else if (__sanitizer_get_ownership(p) && p != (uint8_t *)r && p != r->BWT)
                fail("the input string was not released");
            if (!__sanitizer_get_ownership(r->BWT)) fail("result array is not a live heap block");
            if (__sanitizer_get_allocated_size(r->BWT) < n + 1) fail("result array is too small");
            delete[] r->BWT; free(r);
            size_t l1 = live();
            if (l1 != l0) fail("allocated bytes changed from " + std::to_string(l0) + " to " + std::to_string(l1) + (ff ? " with free_T" : " without free_T"));
        }
        if (X.replay) { for (int i = 0; i < 5; i++) file_case(t, i); file_case(Bytes(), 0); }
        else if (n < 2000 && k % 4 == 0) file_case(k % 20 == 0 ? Bytes() : t, (int)(k / 4 % 5));
    });
}
