#include "vh.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <chrono>
#ifdef VH_VARIANT_TSAN
#include <thread>
#include <mutex>
#include <atomic>
#endif

namespace vh { int g_thorough = 0; int g_verbose = 0; }
using namespace vh;

static void jstr(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); }
        else if (ch < 0x20 || ch >= 0x7f) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

static void run_case(const Suite& s, u64 seed, u64 i) {
    Ctx c{s.name, seed, i, Rng(hcomb(hcomb(seed, hstr(s.name)), i))};
    try {
        s.fn(c);
    } catch (std::exception& e) {
        int status; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &status);
        c.fail("unexpected-exception", std::string(d ? d : typeid(e).name()) + ": " + e.what());
    } catch (...) {
        c.fail("unexpected-exception", "unknown type");
    }
    stats().cases++;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

#ifdef VH_VARIANT_TSAN
// Cases of all suites, chosen at random, on several threads at once. The threads never synchronize with each other,
// so that any memory they share without having been told to is a race.
static void merge(Stats& a, const Stats& b) {
    a.evaluations += b.evaluations; a.cases += b.cases;
    a.distinct.insert(b.distinct.begin(), b.distinct.end());
    for (auto& k : b.cover) a.cover[k.first] += k.second;
    for (auto& k : b.fail_counts) a.fail_counts[k.first] += k.second;
    for (auto& k : b.maxima) a.maxima[k.first] = std::max(a.maxima[k.first], k.second);
    a.samples.insert(a.samples.end(), b.samples.begin(), b.samples.end()); a.fails.insert(a.fails.end(), b.fails.begin(), b.fails.end());
}
static void mix(u64 threads, u64 seed, double seconds, u64* st) {
    std::vector<Stats> per(threads); std::atomic<u64> flight{0}, at{0};
    std::vector<std::thread> ts; double end = now() + seconds;
    auto& S = suites();
    for (u64 t = 0; t < threads; ++t) ts.emplace_back([&, t] {
        Rng r(hcomb(hcomb(seed, 77), t)); u64 overlapped = 0; std::set<std::pair<u64, u64>> pairs;
        for (u64 k = 0; k < 8 || now() < end; ++k) {
            const Suite& s = S[k < S.size() ? (k + t * (S.size() / threads + 1)) % S.size() : r.below(S.size())];
            if (st) __atomic_store_n(st + 1, at.fetch_add(1, std::memory_order_relaxed), __ATOMIC_RELAXED);
            if (flight.fetch_add(1, std::memory_order_relaxed) > 0) ++overlapped;
            run_case(s, seed, r.below(std::max<u64>(s.nq, 1)));
            flight.fetch_sub(1, std::memory_order_relaxed);
            if (k > 2000000) break;
        }
        stats().cover["concurrent-cases"] += overlapped; stats().cover["threads"] += 1;
        per[t] = stats();
    });
    for (auto& t : ts) t.join();
    for (auto& p : per) merge(stats(), p);
    // a case that also fails on its own says nothing about threads: the property it belongs to reports it
    auto fails = stats().fails; auto counts = stats().fail_counts; stats().fails.clear(); stats().fail_counts.clear();
    decltype(fails) kept;
    for (auto& f : fails) for (auto& s : S) if (f.suite == s.name) { run_case(s, seed, f.index); if (stats().fails.empty()) kept.push_back(f); stats().fails.clear(); stats().fail_counts.clear(); }
    stats().fails = kept; for (auto& f : kept) stats().fail_counts[f.what] = counts[f.what];
    auto& c = stats().cover; u64 n = c["concurrent-cases"], k = c["threads"]; c.clear(); c["concurrent-cases"] = n; c["threads"] = k; c["suites-mixed"] = S.size();
}
#endif

int main(int argc, char** argv) {
    std::string suite, out, state;
    u64 from = 0, to = ~0ull, seed = 1, scale = 1;
    u64 threads = 0; double seconds = 0;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") list = true;
        else if (a == "--suite") suite = nxt();
        else if (a == "--from") from = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--scale") scale = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--out") out = nxt();
        else if (a == "--state") state = nxt();
        else if (a == "--mix") threads = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--time") seconds = strtod(nxt().c_str(), 0);
        else if (a == "--thorough") g_thorough = 1;
        else if (a == "-v") g_verbose = 1;
    }
    std::sort(suites().begin(), suites().end(), [](const Suite& a, const Suite& b) { return std::string(a.name) < b.name; });
    if (list) {
        for (auto& s : suites()) printf("%s %llu %llu\n", s.name, (unsigned long long)s.nq, (unsigned long long)s.nt);
        return 0;
    }
    u64* st = nullptr;
    if (!state.empty()) {
        int fd = open(state.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 64) != 0) return 97;
        st = (u64*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (st == MAP_FAILED) return 97;
        close(fd);
    }
#ifdef VH_VARIANT_TSAN
    if (threads) { mix(threads, seed, seconds ? seconds : 5, st); if (st) st[2] = 1; }
    else
#endif
    for (auto& s : suites()) {
        if (!suite.empty() && suite != s.name) continue;
        u64 n = (g_thorough ? s.nt : s.nq) * (s.fixed ? 1 : scale);
        u64 hi = std::min(to, n);
        double end = now() + seconds;
        for (u64 i = from; i < hi; ++i) {
            if (st) { st[0] = i; st[1]++; }
            run_case(s, seed, i);
            if (seconds && now() > end) break;
        }
        if (st) st[2] = 1;
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 97;
    auto& S = stats();
    fprintf(f, "{\"cases\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"cover\":{",
        (unsigned long long)S.cases, (unsigned long long)S.evaluations, (unsigned long long)S.distinct.size());
    bool first = true;
    for (auto& kv : S.cover) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long)kv.second); }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto& kv : S.maxima) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%.6g", std::isfinite(kv.second) ? kv.second : 1e300); }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : S.samples) { if (!first) fputc(',', f); first = false; jstr(f, s); }
    fprintf(f, "],\"fail_counts\":{");
    first = true;
    for (auto& kv : S.fail_counts) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long)kv.second); }
    fprintf(f, "},\"fails\":[");
    first = true;
    for (auto& x : S.fails) {
        if (!first) fputc(',', f); first = false;
        fprintf(f, "{\"index\":%llu,\"what\":", (unsigned long long)x.index); jstr(f, x.what);
        fprintf(f, ",\"msg\":"); jstr(f, x.msg.size() > 4000 ? x.msg.substr(0, 4000) : x.msg); fputc('}', f);
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}
