#include "gen.h"
#include "shapes.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
const char *pbt_property = "P12";
const char *pbt_rule = "random curves (2D/3D, polynomial/rational, several spans) and sub-ranges; arc length and its derivatives, the arc-length law, equal-length and deviation-bounded samplings, bulk points and directions; oracle: per-span composite Gauss-Legendre quadrature of the quad-precision speed, geometric inequalities and the definition of each sampling; non-trivial: several spans or degree >= 2";
// arc length by composite 10-point Gauss-Legendre per knot span
static const double gx[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
static const double gw[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
template <size_t N, bool rat> static double arc(const Crv<N, rat> &c, double a, double b, int sub)
{
    std::vector<double> br{a}; for (auto k : c.K.brk) if (k > a && k < b) br.push_back(k); br.push_back(b);
    double L = 0;
    for (size_t i = 1; i < br.size(); i++) for (int j = 0; j < sub; j++)
    {
        double x0 = br[i - 1] + (br[i] - br[i - 1]) * j / sub, x1 = br[i - 1] + (br[i] - br[i - 1]) * (j + 1) / sub, m = (x0 + x1) / 2, h = (x1 - x0) / 2;
        for (int g = 0; g < 5; g++) L += h * gw[g] * (mag(c.val(m - h * gx[g], 1)) + mag(c.val(m + h * gx[g], 1)));
    }
    return L;
}
template <size_t N, bool rat> static double arc(const Crv<N, rat> &c, double a, double b, double *err = nullptr)
{
    double L2 = arc(c, a, b, 4); if (err) { int n = 4; do { double L1 = L2; n = n * 5 / 2; L2 = arc(c, a, b, n); *err = std::abs(L2 - L1); } while (*err > 1e-7 * L2 && n < 60); } return L2;
}
// curves advancing steadily: the speed never comes near 0
template <size_t N, bool rat> static Crv<N, rat> pcrv(Src &s, int pmin, int pmax, int spans, int maxmult = -1)
{
    Crv<N, rat> c; size_t p = s.in(pmin, pmax); KOpt o; o.max_spans = spans; o.ratio = 3; o.max_mult = maxmult; o.unit = s.chance(1, 2); c.K = knots<double>(s, p, o);
    auto r = s.bulk(); size_t n = c.K.n(); double len = std::exp(s.real(-2, 3)), amp = s.real(0, 1), sk = s.real(0, 0.4); c.P.resize(n);
    for (size_t i = 0; i < n; i++)
    {
        double g = 0; for (size_t j = 1; j <= p; j++) g += c.K.flat[i + j]; g = (g / p - c.K.lo()) / (c.K.hi() - c.K.lo());
        c.P[i][0] = len * (g + sk * g * g); for (size_t k = 1; k < N; k++) c.P[i][k] = len * amp * r.range(-0.5, 0.5) / (n > 2 ? std::sqrt(double(n)) : 1);
        if constexpr (rat) { double w = r.range(0.8, 1.25); for (size_t k = 0; k < N; k++) c.P[i][k] *= w; c.P[i][N] = w; }
    }
    return c;
}
template <size_t N, bool rat> static void range(Src &s, const Crv<N, rat> &c, double &a, double &b)
{
    a = c.K.lo(); b = c.K.hi();
    if (s.chance(1, 2)) { double x = param(s, c.K), y = param(s, c.K); if (x > y) std::swap(x, y); if (y - x > 0.02 * (b - a)) { a = x; b = y; } }
}
template <size_t N, bool rat> static void len_prop(Src &s)
{
    auto c = s.chance(1, 2) ? pcrv<N, rat>(s, 1, 5, 5) : gcrv<N, rat>(s, 1, 5, 4); auto C = c.make();
    double a, b; range(s, c, a, b);
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " on [" << a << "," << b << "]";
    double err; double L = arc(c, a, b, &err); DISCARD_IF(err > 3e-6 * L || L < 1e-3);
    bool smooth = true; for (auto k : c.K.brk) if (k > a && k < b) smooth = false;
    double tol = 10 * err + (smooth ? 1e-5 : 2e-2) * L; // the quadrature is adaptive to some 1e-8, but may be satisfied too early across kinks
    double l = gbs::length<double, N>(C, a, b);
    REQUIRE_MSG(std::abs(l - L) <= tol, "length " << l << " instead of " << L << " (oracle error " << err << ")");
    REQUIRE(l >= dist(C.value(a), C.value(b)) - tol);
    if (a == c.K.lo() && b == c.K.hi()) REQUIRE(std::abs(gbs::length<double, N>(C) - L) <= tol);
    double m = a + (b - a) * s.real(0.05, 0.95);
    double l1 = gbs::length<double, N>(C, a, m), l2 = gbs::length<double, N>(C, m, b);
    REQUIRE_MSG(std::abs(l1 + l2 - l) <= 2 * tol && l1 >= 0 && l2 >= 0, "pieces at " << m << ": " << l1 << " + " << l2 << " != " << l);
    // derivatives with respect to the end
    auto v1 = c.val(b, 1); double sp = mag(v1);
    REQUIRE(std::abs(gbs::length<double, N>(C, a, b, 1) - sp) <= 1e-9 * (1 + sp + c.scale() / c.K.minspan()));
    if (c.K.p >= 2 && sp > 1e-2 * L) { auto v2 = c.val(b, 2); double d = 0; for (size_t k = 0; k < N; k++) d += v1[k] * v2[k]; REQUIRE(std::abs(gbs::length<double, N>(C, a, b, 2) - d / sp) <= 1e-8 * (1 + mag(v2) + c.scale() / c.K.minspan() / c.K.minspan())); }
    try { gbs::length<double, N>(C, a, b, 3 + s.draw(3)); REQUIRE(!"third derivative of the length accepted"); } catch (std::runtime_error &) { }
    // non-adaptive rule: exact on what is smooth over the range
    double sl = 1e300, sm = 0; for (int i = 0; i <= 20; i++) { double x = mag(c.val(a + (b - a) * i / 20, 1)); sl = std::min(sl, x); sm = std::max(sm, x); }
    if (smooth && sm < 3 * sl) REQUIRE(std::abs(gbs::length<double, N>(C, a, b, 0, false) - L) <= 1e-4 * L);
    // the length does not depend on the representation
    if (s.chance(1, 3))
    {
        auto D = C; int op = s.in(0, 2);
        if (op == 0) D.reverse(); else if (op == 1) D.increaseDegree(); else D.changeBounds(3., 3. + s.real(0.5, 4));
        double F = arc(c, c.K.lo(), c.K.hi(), &err); double x = gbs::length<double, N>(D);
        if (err < 1e-5 * F) REQUIRE_MSG(std::abs(x - F) <= 10 * err + (c.K.brk.size() < 3 ? 2e-4 : 2e-2) * F, "length " << x << " of another representation, " << F << " expected");
    }
    s.nontrivial(c.K.p >= 2 || c.K.brk.size() > 2);
}
PBT_ARM(length_d2, 200, 5000) { len_prop<2, false>(s); }
PBT_ARM(length_d3, 200, 5000) { len_prop<3, false>(s); }
PBT_ARM(length_rational, 150, 4000) { len_prop<2, true>(s); }
// arc-length law and equal-length sampling
template <size_t N, bool rat> static void uniform(Src &s)
{
    bool smooth = s.chance(2, 3); auto c = smooth ? pcrv<N, rat>(s, 2, 4, 1) : pcrv<N, rat>(s, 1, 4, 4); auto C = c.make();
    double a, b; range(s, c, a, b); double L = arc(c, a, b);
    size_t n = s.in(2, 25), nl = s.one_of<size_t>({30, 30, 60, 20, 45});
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " on [" << a << "," << b << "] n=" << n << " law=" << nl;
    // speed ratio bounds the quality of the interpolated law
    double sl = 1e300, sm = 0; for (int i = 0; i <= 60; i++) { double x = mag(c.val(a + (b - a) * i / 60, 1)); sl = std::min(sl, x); sm = std::max(sm, x); }
    DISCARD_IF(sm > 4 * sl);
    double tol = smooth ? 2e-3 * L * std::pow(20. / nl, 3) + 1e-6 * L : 1.0 * L * (sm / sl) / nl;
    auto f = gbs::abs_curv<double, N>(C, a, b, nl);
    REQUIRE(f.bounds()[0] == 0. && std::abs(f.bounds()[1] - L) <= (smooth ? 2e-6 : 2e-3) * L);
    REQUIRE(std::abs(f(0.) - a) <= 1e-9 * (1 + std::abs(a)) && std::abs(f(f.bounds()[1]) - b) <= 1e-9 * (1 + std::abs(b)));
    // the law is exact at its own sampling: equal steps of the parameter
    for (int k = 0; k < 3; k++)
    {
        size_t i = s.draw(nl); double ui = a + (b - a) * i / (nl - 1.), mi = i == 0 ? 0 : std::min(arc(c, a, ui), f.bounds()[1]);
        REQUIRE_MSG(std::abs(f(mi) - ui) <= (smooth ? 1e-5 : 1e-3) * (b - a) * (sm / sl), "law at " << mi << ": " << f(mi) << " instead of " << ui);
        double m = L * 0.999999 * s.unit(); double x = f(m); x = std::min(std::max(x, a), b); double e = std::abs(arc(c, a, x) - m);
        REQUIRE_MSG(e <= tol, "u(" << m << ")=" << x << " is at length " << arc(c, a, x));
    }
    bool full = a == c.K.lo() && b == c.K.hi() && s.chance(1, 2);
    auto u = full ? gbs::uniform_distrib_params<double, N>(C, n, nl) : gbs::uniform_distrib_params<double, N>(C, a, b, n, nl);
    REQUIRE(u.size() == n && u.front() == a && u.back() == b && std::is_sorted(u.begin(), u.end()));
    size_t k = 0; for (auto x : u) { double m = L * k / (n - 1.); double am = arc(c, a, x); REQUIRE_MSG(std::abs(am - m) <= tol, "point " << k << " at length " << am << " instead of " << m << " of " << L << " (tolerance " << tol << ")"); k++; }
    if (full)
    {
        auto P = gbs::discretize<double, N>(C, n), Q = gbs::make_points<double, N>(C, gbs::uniform_distrib_params<double, N>(C, n));
        REQUIRE(P == Q && P.size() == n);
    }
    s.nontrivial(n > 2 && c.K.p >= 2);
}
PBT_ARM(uniform_d2, 150, 4000) { uniform<2, false>(s); }
PBT_ARM(uniform_d3, 150, 4000) { uniform<3, false>(s); }
PBT_ARM(uniform_rational, 100, 3000) { uniform<2, true>(s); }
// length functions with adaptive sampling, also where the refinement is really used
PBT_ARM(length_functions, 120, 3000)
{
    bool tame = s.chance(2, 3); auto c = tame ? pcrv<2, false>(s, 2, 4, 1) : gcrv<2, false>(s, 1, 4, 4); auto C = c.make();
    double a = c.K.lo(), b = c.K.hi(), err, L = arc(c, a, b, &err); DISCARD_IF(err > 1e-5 * L || L < 1e-2);
    size_t n = tame ? s.in(4, 40) : s.in(2, 12); double tol = tame ? s.one_of({1e-3, 1e-6, 1e-9}) : s.one_of({1e-3, 1e-4, 1e-6});
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " n=" << n << " tol=" << tol;
    auto [u, m] = gbs::abs_curv_adaptive_discretzation<double, 2>(C, a, b, n, 3, tol);
    REQUIRE(u.size() == m.size() && u.size() >= n && u.front() == a && u.back() == b && m.front() == 0);
    for (size_t i = 1; i < u.size(); i++) REQUIRE_MSG(u[i] > u[i - 1] && m[i] >= m[i - 1], "not increasing at " << i);
    for (int k = 0; k < 4; k++) { size_t i = s.draw(u.size()); double e2 = 0, A = i ? arc(c, a, u[i], &e2) : 0; REQUIRE_MSG(std::abs(m[i] - A) <= 10 * e2 + 5e-4 * L, "length up to " << u[i] << ": " << m[i] << " instead of " << A); }
    if (tame)
    {
        auto F = gbs::curve_length_function<double, 2>(C, n, 3, tol); auto G = gbs::abs_curv_adaptive<double, 2>(C, n, 3, tol);
        REQUIRE(F.bounds()[0] == a && F.bounds()[1] == b && std::abs(G.bounds()[1] - L) < 1e-5 * L && G.bounds()[0] == 0);
        for (int k = 0; k < 4; k++)
        {
            size_t i = s.draw(u.size()); REQUIRE(std::abs(F(u[i]) - m[i]) < 1e-8 * L && std::abs(G(std::min(m[i], G.bounds()[1])) - u[i]) < 1e-7 * (b - a) + 1e-9);
            double x = a + (b - a) * s.unit(), ax = arc(c, a, x); if (n >= 15) { REQUIRE(std::abs(F(x) - ax) < 0.01 * L); REQUIRE(std::abs(G(std::min(ax, G.bounds()[1])) - x) < 0.03 * (b - a)); }
        }
    }
    s.label(u.size() > n ? "refined" : "initial"); s.nontrivial();
}
// deviation based sampling
template <size_t N, bool rat> static void deviation(Src &s)
{
    auto c = s.chance(1, 2) ? pcrv<N, rat>(s, 1, 4, 5) : gcrv<N, rat>(s, 1, 4, 4); auto C = c.make();
    double a, b; range(s, c, a, b); bool full = a == c.K.lo() && b == c.K.hi() && s.chance(1, 2);
    size_t n = s.in(2, 12); double dev = s.one_of({0.5, 0.2, 0.1, 0.05, 0.02});
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " on [" << a << "," << b << "] n=" << n << " dev=" << dev;
    size_t nmax = s.chance(1, 4) ? s.in(1, 60) : 5000; s << " max=" << nmax;
    auto u = full ? gbs::deviation_based_params<double, N>(C, n, dev, nmax) : gbs::deviation_based_params<double, N>(C, a, b, n, dev, nmax);
    std::vector<double> v(u.begin(), u.end()); size_t n0 = n; for (auto k : c.K.brk) if (k > a && k < b) n0++;
    REQUIRE_MSG(v.size() <= std::max(nmax, n0), v.size() << " parameters, " << nmax << " allowed");
    REQUIRE(v.front() == a && std::abs(v.back() - b) <= 1e-14 * (1 + std::abs(b)) && v.size() >= n && std::is_sorted(v.begin(), v.end()));
    for (size_t i = 0; i < n; i++) { double x = a + (b - a) * i / (n - 1.); bool in = false; for (auto y : v) if (std::abs(x - y) <= 1e-13 * (1 + std::abs(x))) in = true; REQUIRE_MSG(in, "initial parameter " << x << " missing"); }
    for (auto k : c.K.brk) if (k > a && k < b) { REQUIRE_MSG(std::find(v.begin(), v.end(), k) != v.end(), "knot " << k << " missing"); }
    if (v.size() < nmax) for (size_t i = 1; i < v.size(); i++)
    {
        double u1 = v[i - 1], u2 = v[i]; if (u2 - u1 < 1e-10 * (1 + std::abs(u2))) continue; // refinement stops at coincident parameters
        auto A = c.val(u1), M = c.val(0.5 * (u1 + u2)), B = c.val(u2); double x = 0, y = 0, z = 0; for (size_t k = 0; k < N; k++) { x += (M[k] - A[k]) * (M[k] - A[k]); y += (B[k] - A[k]) * (B[k] - A[k]); z += (M[k] - A[k]) * (B[k] - A[k]); }
        if (std::sqrt(x) < 1e-6 * c.scale() || std::sqrt(y) < 1e-6 * c.scale()) continue; // direction undefined
        double sn = std::sqrt(std::max(0., 1 - z * z / (x * y)));
        REQUIRE_MSG(sn <= dev + 1e-6, "deviation " << sn << " on [" << u1 << "," << u2 << "]");
    }
    auto [P, U] = gbs::discretize_with_params<double, N>(C, n, dev, nmax); auto Q = gbs::discretize<double, N>(C, n, dev, nmax);
    REQUIRE(P.size() == U.size() && P == Q); for (size_t i = 0; i < U.size(); i++) REQUIRE(P[i] == C.value(U[i]));
    if (full) REQUIRE(U == v);
    s.nontrivial(v.size() > n);
}
PBT_ARM(deviation_d2, 150, 4000) { deviation<2, false>(s); }
PBT_ARM(deviation_d3, 150, 4000) { deviation<3, false>(s); }
PBT_ARM(deviation_rational, 100, 3000) { deviation<2, true>(s); }
// points and directions
PBT_ARM(points_directions, 400, 10000)
{
    auto c = gcrv<3, false>(s, 1, 4, 4); auto C = c.make(); auto c2 = gcrv<2, true>(s, 1, 4, 4); auto C2 = c2.make();
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8);
    size_t n = s.one_of<size_t>({1, 7, 999, 1000, 1500}), d = s.draw(3); std::vector<double> u(n); auto r = s.bulk(); for (auto &x : u) x = r.range(c.K.lo(), c.K.hi());
    auto P = gbs::make_points<double, 3>(C, u, d); REQUIRE(P.size() == n); for (size_t i = 0; i < n; i++) REQUIRE_MSG(P[i] == C.value(u[i], d), "point " << i << " of " << n);
    std::list<double> ul(u.begin(), u.end()); REQUIRE((gbs::make_points<double, 3>(C, ul, d) == P));
    auto ub = u; ub[s.draw(n)] = c.K.hi() + 0.1; bool thrown = false; try { gbs::make_points<double, 3>(C, ub); } catch (gbs::OutOfBoundsCurveEval<double> &) { thrown = true; } REQUIRE_MSG(thrown, "parameter out of bounds accepted among " << n);
    double x = inner_param(s, c.K); auto v1 = c.val(x, 1), v2 = c.val(x, 2); double sp = mag(v1);
    if (sp > 1e-3)
    {
        auto t = gbs::tangential_direction<double, 3>(C, x); for (int k = 0; k < 3; k++) REQUIRE(std::abs(t[k] - v1[k] / sp) < 1e-7);
        auto [o, dir] = gbs::tangential_line<double, 3>(C, x); REQUIRE(o == C.value(x) && dir == t);
        std::array<double, 3> cr{v1[1] * v2[2] - v1[2] * v2[1], v1[2] * v2[0] - v1[0] * v2[2], v1[0] * v2[1] - v1[1] * v2[0]};
        if (c.K.p >= 2 && mag(cr) > 1e-2 * sp * mag(v2) && mag(v2) > 1e-2)
        {
            auto nn = gbs::normal_direction<double>(C, x); double tn = 0, bn = 0; for (int k = 0; k < 3; k++) { tn += nn[k] * v1[k] / sp; bn += nn[k] * cr[k] / mag(cr); }
            REQUIRE(std::abs(mag(nn) - 1) < 1e-6 && std::abs(tn) < 1e-6 && std::abs(bn) < 1e-6);
            auto [o2, n2] = gbs::normal_line<double, 3>(C, x); REQUIRE(o2 == C.value(x) && n2 == nn);
        }
    }
    double y = inner_param(s, c2.K); auto w1 = c2.val(y, 1); double s2 = mag(w1);
    if (s2 > 1e-3) { auto n2 = gbs::normal_direction<double>(C2, y); REQUIRE(std::abs(n2[0] + w1[1] / s2) < 1e-7 && std::abs(n2[1] - w1[0] / s2) < 1e-7); }
    s.nontrivial(n > 7);
}
// surface samplings
PBT_ARM(surface_sampling, 100, 3000)
{
    auto c = gsrf<false>(s, 1, 3); auto S = c.make(); size_t nu = s.in(2, 9), nv = s.in(2, 7); if (s.chance(1, 6)) { nu = 41; nv = 26; }
    s << "pu=" << c.U.p << " pv=" << c.V.p << " " << nu << "x" << nv;
    auto P = gbs::discretize<double, 3>(S, nu, nv); REQUIRE(P.size() == nu * nv);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) { double u = c.U.lo() + (c.U.hi() - c.U.lo()) * i / (nu - 1.), v = c.V.lo() + (c.V.hi() - c.V.lo()) * j / (nv - 1.); if ((i * 7 + j) % 5 == 0) near<3>(P[i + nu * j], c.val(u, v), 1e-9 * c.scale(), "sample", u); }
    double dev = s.one_of({0.3, 0.1, 0.05}); size_t n = s.in(2, 8); double w = s.unit(); bool alongu = s.chance(1, 2);
    auto &K = alongu ? c.U : c.V; auto &F = alongu ? c.V : c.U; double f = F.lo() + (F.hi() - F.lo()) * w, a = K.lo(), b = K.hi(); if (s.chance(1, 2)) { a += 0.1 * (b - a); b -= 0.2 * (b - a); }
    auto L = alongu ? gbs::deviation_based_u_params<double, 3>(S, a, b, f, n, dev) : gbs::deviation_based_v_params<double, 3>(S, a, b, f, n, dev);
    std::vector<double> v(L.begin(), L.end()); REQUIRE(v.size() >= n && v.front() == a && std::abs(v.back() - b) < 1e-14 && std::is_sorted(v.begin(), v.end()));
    auto at = [&](double x) { return alongu ? c.val(x, f) : c.val(f, x); };
    for (size_t i = 1; i < v.size(); i++)
    {
        auto A = at(v[i - 1]), M = at(0.5 * (v[i - 1] + v[i])), B = at(v[i]); double x = 0, y = 0, z = 0; for (size_t k = 0; k < 3; k++) { x += (M[k] - A[k]) * (M[k] - A[k]); y += (B[k] - A[k]) * (B[k] - A[k]); z += (M[k] - A[k]) * (B[k] - A[k]); }
        if (std::sqrt(x) < 1e-6 || std::sqrt(y) < 1e-6) continue;
        REQUIRE_MSG(std::sqrt(std::max(0., 1 - z * z / (x * y))) <= dev + 1e-6, "deviation on [" << v[i - 1] << "," << v[i] << "]");
    }
    s.nontrivial(v.size() > n);
}
