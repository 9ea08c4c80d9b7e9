// Statistical monitors with fixed, tiny false alarm rates (seeds are fixed too, so a verdict is reproducible).
#pragma once
#include "vh.h"
namespace vh {
typedef long double sld;
// upper tail of a chi-square statistic as a normal deviate (Wilson-Hilferty)
inline double chi_z(const std::vector<u64>& got, const std::vector<double>& p) {
    double n = 0, x = 0; for (u64 g : got) n += g; int k = 0; double pool = 0, pg = 0;
    auto add = [&](double e, double g) { x += (g - e) * (g - e) / e; ++k; };
    for (size_t i = 0; i < got.size(); ++i) { double e = n * p[i]; if (e <= 0) { if (got[i]) return 1e9; continue; } if (e < 20) { pool += e; pg += got[i]; if (pool >= 20) { add(pool, pg); pool = pg = 0; } } else add(e, got[i]); }
    if (pool > 0) { if (pool >= 5) add(pool, pg); else if (pg > 100) return 1e9; }
    if (k < 2) return 0;
    double d = k - 1, t = 2 / (9 * d); return (std::cbrt(x / d) - (1 - t)) / std::sqrt(t);
}
static const double ZMAX = 7.5; // one-sided probability about 3e-14
inline bool chi(Ctx& c, const std::vector<u64>& got, const std::vector<double>& p, const char* what) {
    double z = chi_z(got, p); c.maximum(std::string("z-") + what, z);
    return c.check(z < ZMAX, what, [&](auto& o) { o << "deviation z=" << z << " counts"; for (size_t i = 0; i < got.size() && i < 40; ++i) o << " " << got[i] << "/" << p[i]; });
}
inline bool chiu(Ctx& c, const std::vector<u64>& got, const char* what) { return chi(c, got, std::vector<double>(got.size(), 1. / got.size()), what); }
// Kolmogorov-Smirnov against the uniform distribution over [0,1]
inline bool ks(Ctx& c, std::vector<double>& u, const char* what, double resolution = 0) {
    std::sort(u.begin(), u.end()); double n = u.size(), d = 0; for (size_t i = 0; i < u.size(); ++i) d = std::max(d, std::max(u[i] - i / n, (i + 1) / n - u[i])); d = (d - resolution) * std::sqrt(n);
    c.maximum(std::string("ks-") + what, d); return c.check(d < 4.0, what, [&](auto& o) { o << "D*sqrt(n)=" << d << " over " << u.size() << " samples"; });
}
}
