#include "lin.h"
#include <iomanip>
using namespace vh;

template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }

// the inverse of `a` written to / returned in every combination of storage
template <class T, index_t N, int KA, int KD>
void inv_kinds(Ctx& c) {
    bool integer = c.rng.chance(.7); auto a = rand_square<T>(c, N, integer); bool forced = (integer || N >= 5) && c.rng.chance(.15);
    if (forced) make_singular(c, a, N >= 5);
    auto junk = dm_rand<T>(c, N, N);
    c.note = str([&](auto& o) { o << std::setprecision(9) << kind_name(KA) << " " << a << " -> " << kind_name(KD); });
    LM want; ld cond = 0; bool reg; ld unit = 0;
    // singular or not: exact for integers
    bool known = true;
    if (integer) { reg = exact_det(a) != 0; if (N >= 5 && !reg && !forced) known = false; } else { reg = !forced; }
    if (reg) { if (!ld_inverse(lm(a), want)) { c.cover("reference-gave-up"); return; } cond = norm_inf(lm(a)) * norm_inf(want); if (!integer && cond > 200) { c.cover("ill-conditioned-skipped"); return; } unit = norm_inf(want); }
    Hold<T, N, N, KA> A(a); Hold<T, N, N, KD> D(junk);
    bool ok1 = inv(&D.m, A.m), ok2 = !ok1; auto R = inv(A.m, &ok2);
    if (known) { c.check(ok1 == reg, "singularity", [&](auto& o) { o << "inv returned " << ok1; }); c.check(ok2 == reg, "singularity-returned", [&](auto& o) { o << "inv reported " << ok2; }); }
    dm_same(c, A.m, a, "source-changed");
    if (!ok1) dm_same(c, D.m, junk, "failed-inverse-wrote-destination");
    ld tol = 200 * N * eps<T>() * (integer ? cond : N <= 4 ? powl(cond, N - 1) : cond) * unit;
    if (reg && ok1) dm_near<T>(c, D.m, want, tol, "inverse");
    if (reg && ok2) dm_near<T>(c, R, want, tol, "inverse-returned");
    // in place
    { Hold<T, N, N, KA> X(a); bool ok = inv(&X.m, X.m); if (known) c.check(ok == reg, "singularity-in-place"); if (reg && ok) dm_near<T>(c, X.m, want, tol, "inverse-in-place"); if (!ok) dm_same(c, X.m, a, "failed-in-place-inverse-changed-matrix"); }
    // into a transposed view of itself
    { Hold<T, N, N, KA> X(a); auto V = X.m.as_transpose(); bool ok = inv(&V, X.m); if (known) c.check(ok == reg, "singularity-into-transposed-view"); if (reg && ok) dm_near<T>(c, V, want, tol, "inverse-into-transposed-view"); }
    c.cover(!known ? "singular-by-rounding-only" : reg ? "regular" : "singular"); c.cover(integer ? "integer" : "real");
    c.nontrivial(hcomb(dm_hash(a), KA * 10 + KD));
    if (c.want_sample() && reg) c.sample(c.note + str([&](auto& o) { o << " cond " << (double)cond; }));
}
template <class T, index_t N> void inv_suite(Ctx& c) {
    void (*f[])(Ctx&) = {inv_kinds<T, N, K_SROW, K_SROW>, inv_kinds<T, N, K_SCOL, K_SROW>, inv_kinds<T, N, K_DROW, K_DCOLSH>, inv_kinds<T, N, K_WCOL, K_DROW>, inv_kinds<T, N, K_WROW, K_SCOL>, inv_kinds<T, N, K_DCOLSH, K_WCOL>};
    f[c.rng.below(6)](c);
}
