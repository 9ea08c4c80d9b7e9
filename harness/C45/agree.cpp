#include "vh.h"
#include "log.h"
#include <malloc.h>
#include <dlfcn.h>
#include <unistd.h>
using namespace vh;
// the builds lie beside the monitor
struct Build { std::string name; void (*run)(const char* group, uint64_t seed, Log* log); };
static const std::vector<Build>& builds() { static std::vector<Build> b; if (b.empty()) for (const char* n : {"clang_O0", "clang_O2", "clang_O3", "gcc_O0", "gcc_O3"}) {
        char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe); std::string dir(exe, k > 0 ? k : 0); dir = dir.substr(0, dir.rfind('/') + 1);
        void* h = dlopen((dir + "multi-" + n + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); } b.push_back({n, (void (*)(const char*, uint64_t, Log*))dlsym(h, "vh_run")}); } return b; }
// the same up to rounding; what both builds agree is not a number, or infinite, agrees
static bool close(double a, double b, double tol) { if (a == b || (a != a && b != b)) return true; return std::fabs(a - b) <= tol * std::max({1., std::fabs(a), std::fabs(b)}); }
static std::string show(const Item& i) { return str([&](auto& o) { o.precision(17); if (i.kind == 0) o << i.u; else if (i.kind == 3) o << '"' << i.s << '"'; else o << i.f; }); }
static void dirt(unsigned char v) { void* p[24]; for (int i = 0; i < 24; ++i) { p[i] = malloc(24 << (i % 8)); memset(p[i], v, 24 << (i % 8)); } for (int i = 0; i < 24; ++i) free(p[i]); }
static void deep(unsigned char v) { volatile unsigned char a[16384]; for (auto& x : a) x = v; }
static void agree(Ctx& c, const char* group) {
    uint64_t seed = c.rng.next(); std::vector<Log> logs; logs.reserve(16); auto& bs = builds(); c.eq(bs.size(), (size_t)5, "builds");
    for (auto& b : bs) for (int again = 0; again < 2; ++again) { unsigned char v = again ? 0x00 : 0xc5; dirt(v); deep(v); logs.emplace_back(); b.run(group, seed, &logs.back()); }
    const auto& a = logs[0].items; for (size_t k = 1; k < logs.size(); ++k) { const auto& b = logs[k].items; size_t n = std::min(a.size(), b.size()), i = 0;
        for (; i < n; ++i) { bool same = a[i].kind == b[i].kind && !strcmp(a[i].what, b[i].what) && (a[i].kind == 0 ? a[i].u == b[i].u : a[i].kind == 3 ? a[i].s == b[i].s : close(a[i].f, b[i].f, a[i].kind == 1 ? 1e-9 : 1e-4));
            if (a[i].kind == 1 || a[i].kind == 2) { c.cover("numbers"); if (a[i].f == b[i].f) c.cover("numbers-exact"); } else c.cover("exact-values");
            if (!same) { c.fail(std::string(group) + "/" + a[i].what, str([&](auto& o) { o << show(a[i]) << " in " << bs[0].name << ", " << b[i].what << " " << show(b[i]) << " in " << bs[k / 2].name << (k & 1 ? " when repeated" : ""); })); break; } }
        if (i == n) c.eq(a.size(), b.size(), "values"); c.cover("runs-compared"); }
    uint64_t h = seed; for (auto& i : a) h = hcomb(h, i.kind == 0 ? i.u : i.kind == 3 ? hstr(i.s.c_str()) : hval(i.f)); c.nontrivial(h);
}
#define G(name) SUITE(name, 3000, 300000) { agree(c, name); }
G("lcrand")
G("mtrand")
G("xoshiro")
G("samplers")
G("permute")
G("regions")
G("vectors")
G("quaternions")
G("matrices")
G("solving")
G("transforms")
G("shapes")
G("collisions")
G("rasters")
G("noise")
G("harmonics")
G("paths")
G("digests")
G("containers")
G("text")
G("numbers")
