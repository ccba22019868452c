// Random curves and surfaces with their quad-precision models, shared by the harnesses which build shapes from shapes.
#pragma once
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
using namespace gen;
template <size_t N, bool rat> struct Crv
{
    Knots<double> K; std::vector<std::array<double, N + rat>> P;
    using C = std::conditional_t<rat, gbs::BSCurveRational<double, N>, gbs::BSCurve<double, N>>;
    C make() const { return C(P, K.flat, K.p); }
    double scale() const { return 1 + maxabs(P) * (rat ? 4 : 1); }
    std::vector<ref::Val<N>> at(double u, size_t d) const
    {
        u = std::min(std::max(u, K.lo()), K.hi());
        if constexpr (rat) return ref::rcurve<double, N>(K.flat, P, K.p, u, d); else return ref::curve<double, N>(K.flat, P, K.p, u, d);
    }
    std::array<double, N> val(double u, size_t d = 0) const { auto r = at(u, d)[d]; std::array<double, N> x; for (size_t c = 0; c < N; c++) x[c] = double(r.v[c]); return x; }
};
template <size_t N, bool rat> static Crv<N, rat> gcrv(Src &s, int pmin = 1, int pmax = 4, int spans = 4)
{
    Crv<N, rat> c; size_t p = s.in(pmin, pmax); KOpt o; o.max_spans = spans; o.ratio = 5; c.K = knots<double>(s, p, o);
    // moderate parameters: knots are compared with an absolute tolerance of some 1e-14
    if (std::abs(c.K.lo()) > 5 || c.K.hi() - c.K.lo() > 5) { double lo = c.K.lo(), L = c.K.hi() - lo; for (auto &x : c.K.flat) x = 1 + 2 * (x - lo) / L; for (auto &x : c.K.brk) x = 1 + 2 * (x - lo) / L; }
    if constexpr (rat) c.P = hpoints<double, N>(s, c.K.n(), 10, 3); else c.P = points<double, N>(s, c.K.n());
    return c;
}
static bool knots_close(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (std::abs(a[i] - b[i]) > 1e-12 * (1 + std::abs(a[i]))) return false; return true; }
template <size_t N, typename A, typename B> static void near(const A &a, const B &b, double tol, const char *what, double where)
{
    for (size_t c = 0; c < N; c++) REQUIRE_MSG(std::abs(double(a[c]) - double(b[c])) <= tol, what << " at " << where << ": " << double(a[c]) << " instead of " << double(b[c]) << " (component " << c << ")");
}
template <bool rat> struct Srf
{
    Knots<double> U, V; std::vector<std::array<double, 3 + rat>> P;
    using S = std::conditional_t<rat, gbs::BSSurfaceRational<double, 3>, gbs::BSSurface<double, 3>>;
    S make() const { return S(P, U.flat, V.flat, U.p, V.p); }
    double scale() const { return 1 + maxabs(P) * (rat ? 4 : 1); }
    std::array<double, 3> val(double u, double v, size_t du = 0, size_t dv = 0) const
    {
        u = std::min(std::max(u, U.lo()), U.hi()); v = std::min(std::max(v, V.lo()), V.hi()); std::vector<ref::Val<3>> r;
        if constexpr (rat) r = ref::rsurface<double, 3>(U.flat, V.flat, P, U.p, V.p, u, v, du, dv); else r = ref::surface<double, 3>(U.flat, V.flat, P, U.p, V.p, u, v, du, dv);
        auto &x = r[du * (dv + 1) + dv]; return {double(x.v[0]), double(x.v[1]), double(x.v[2])};
    }
};
// surface over [0,1]x[0,1], or over two unrelated domains
template <bool rat> static Srf<rat> gsrf(Src &s, int pmin = 1, int pmax = 3, bool unit = true, int mult = -1)
{
    Srf<rat> S; KOpt o; o.max_spans = 3; o.ratio = 4; o.unit = true; o.max_mult = mult; S.U = knots<double>(s, s.in(pmin, pmax), o); S.V = knots<double>(s, s.in(pmin, pmax), o);
    if (!unit) for (auto *k : {&S.U, &S.V}) if (s.chance(2, 3)) { double a = s.sym(3), L = s.real(0.4, 4); for (auto &x : k->flat) x = a + L * x; for (auto &x : k->brk) x = a + L * x; }
    size_t nu = S.U.n(), nv = S.V.n(); auto r = s.bulk(); S.P.resize(nu * nv);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) { auto &x = S.P[i + nu * j]; x[0] = 3. * i + r.range(-1, 1); x[1] = 3. * j + r.range(-1, 1); x[2] = r.range(-3, 3); if constexpr (rat) { double w = r.range(0.7, 1.6); for (int c = 0; c < 3; c++) x[c] *= w; x[3] = w; } }
    return S;
}
