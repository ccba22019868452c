#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
const char *pbt_property = "P08";
const char *pbt_rule = "random point sets (6..260 points, noisy, dimension 1..3), degrees 1..6, pole counts from degree+1 to the number of points, fixed or free ends, uniform or non-uniform knots, random surface grids and scattered surface constraints; oracle: quad-precision normal equations (the residual is orthogonal to every free basis function), exact ends, recovery of the generating spline, the documented stop rule of the refining variants, refusal of ill-posed sizes; non-trivial: fewer poles than points (a genuine least-squares problem)";
using namespace gen;

static std::vector<double> params(Src &s, size_t n)
{
    std::vector<double> u{0}; auto r = s.bulk(); size_t mode = s.weighted({1, 2}); 
    for (size_t i = 1; i < n; i++) u.push_back(u.back() + (mode == 0 ? 1. : r.range(0.5, 1.2)));
    double a = 0, L = 1; if (s.chance(1, 2)) { a = s.sym(8); L = s.real(0.5, 8); }
    double t = u.back(); for (auto &x : u) x = a + L * x / t; u.back() = a + L; return u;
}
template <size_t N> static std::vector<std::array<double, N>> cloud(Src &s, size_t n)
{
    std::vector<std::array<double, N>> P(n); auto r = s.bulk(); double noise = s.one_of({0.1, 1., 0.001, 5.}), f = r.range(0.5, 3);
    for (size_t i = 0; i < n; i++) for (size_t c = 0; c < N; c++) { double x = double(i) / (n - 1); P[i][c] = 4 * std::sin(f * x * 3 + c) + (c == 0 ? 10 * x : 0) + noise * r.range(-1, 1); }
    return P;
}
// basis matrix in quad
static std::vector<std::vector<ref::Q>> basis(const std::vector<double> &k, size_t p, const std::vector<double> &u)
{
    size_t n = k.size() - p - 1; std::vector<std::vector<ref::Q>> M;
    for (auto x : u) { std::vector<ref::Q> row(n, ref::Q(0)); auto B = ref::basis_ders(k, p, x, 0); for (size_t r = 0; r <= p; r++) row[B.i - p + r] = B.D[0][r]; M.push_back(row); }
    return M;
}
// Schoenberg-Whitney with a margin: every basis function sees a point of its own
static bool well_posed(const std::vector<double> &k, size_t p, const std::vector<double> &u)
{
    size_t n = k.size() - p - 1, j = 0;
    for (size_t i = 0; i < n; i++)
    {
        double a = k[i], b = k[i + p + 1], m = 0.1 * (b - a);
        while (j < u.size() && !((u[j] > a + m || (i == 0 && u[j] >= a)) )) j++;
        if (j == u.size() || !(u[j] < b - m || (i + 1 == n && u[j] <= b))) return false;
        j++;
    }
    return true;
}
template <size_t N>
static void optimal(const gbs::BSCurve<double, N> &c, const std::vector<std::array<double, N>> &P, const std::vector<double> &u, bool fixed, double tol = 1e-9)
{
    auto &k = c.knotsFlats(); size_t p = c.degree(), n = c.poles().size(); auto M = basis(k, p, u);
    double big = maxabs(c.poles()) + maxabs(P);
    if (fixed) REQUIRE_MSG(c.poles().front() == P.front() && c.poles().back() == P.back(), "ends moved");
    for (size_t d = 0; d < N; d++)
    {
        std::vector<ref::Q> res; for (size_t i = 0; i < u.size(); i++) { ref::Q r = -ref::Q(P[i][d]); for (size_t j = 0; j < n; j++) r += M[i][j] * ref::Q(c.poles()[j][d]); res.push_back(r); }
        for (size_t j = fixed; j + fixed < n; j++)
        {
            ref::Q g = 0, a = 0; for (size_t i = fixed; i + fixed < u.size(); i++) { g += M[i][j] * res[i]; a += M[i][j]; }
            REQUIRE_MSG(std::abs(double(g)) <= tol * big * (1 + double(a)) , "residual not orthogonal to basis function " << j << ": " << double(g) << " scale " << big * double(a));
        }
    }
}
template <size_t N> static void lsq(Src &s)
{
    size_t p = s.in(1, 6); size_t npts = std::max<size_t>(p + 3, s.weighted({5, 2, 1}) == 0 ? s.in(6, 30) : s.chance(1, 2) ? s.in(30, 95) : s.one_of({98, 99, 100, 101, 102, 180, 260}));
    size_t n = p + 1 + s.draw(std::max<size_t>(1, npts - p - 2)); bool fixed = s.chance(1, 2); if (fixed && n < 3) n = 3;
    auto u = params(s, npts); auto P = cloud<N>(s, npts);
    std::vector<double> k; int how = s.in(0, 2);
    if (how == 2) { std::vector<double> sub; for (size_t i = 0; i < n; i++) sub.push_back(u[i * (npts - 1) / (n - 1)]); k = gbs::build_simple_mult_flat_knots<double>(sub, p); } // follows the data
    else k = gbs::build_simple_mult_flat_knots(u.front(), u.back(), n, p);
    DISCARD_IF(!well_posed(k, p, u));
    s << "p=" << p << " points=" << npts << " poles=" << n << " fixed=" << fixed << " knots=" << how << " u=" << show(u, 10);
    auto c = how == 0 ? gbs::approx(P, p, n, u, fixed) : fixed ? gbs::approx_bound_fixed(P, p, n, u, k) : gbs::approx(P, p, n, u, k);
    REQUIRE(c.degree() == p && c.poles().size() == n && c.knotsFlats() == k);
    optimal<N>(c, P, u, fixed);
    s.nontrivial(n < npts);
}
PBT_ARM(lsq_d3, 1500, 40000) { lsq<3>(s); }
PBT_ARM(lsq_d2, 1000, 30000) { lsq<2>(s); }
PBT_ARM(lsq_d1, 500, 20000) { lsq<1>(s); }
// points of a spline of the space: the spline comes back
PBT_ARM(recovery, 1000, 30000)
{
    size_t p = s.in(1, 4), n = p + 1 + s.in(0, 8), npts = n * 3 + s.in(0, 60); bool fixed = s.chance(1, 2); auto u = params(s, npts);
    auto k = gbs::build_simple_mult_flat_knots(u.front(), u.back(), n, p); auto P = points<double, 2>(s, n); gbs::BSCurve<double, 2> c0(P, k, p);
    std::vector<std::array<double, 2>> Q; for (auto x : u) { auto r = ref::curve<double, 2>(k, P, p, x, 0)[0]; Q.push_back({double(r.v[0]), double(r.v[1])}); }
    s << "p=" << p << " poles=" << n << " points=" << npts << " fixed=" << fixed;
    auto c = gbs::approx(Q, p, n, u, fixed);
    for (size_t i = 0; i < n; i++) REQUIRE_MSG(dist(c.poles()[i], P[i]) < 1e-7 * (1 + maxabs(P)), "pole " << i << " off by " << dist(c.poles()[i], P[i]));
    s.nontrivial(n > p + 1);
}
PBT_ARM(mode_overloads, 800, 20000)
{
    size_t p = s.in(1, 5), npts = s.in(int(p) + 3, 60), n = p + 1 + s.draw(npts - p - 2); if (n < 3) n = 3; auto P = cloud<3>(s, npts); int m = s.in(0, 2);
    for (size_t i = 1; i < npts; i++) if (dist(P[i], P[i - 1]) < 0.05) P[i][1] += 0.5;
    auto mode = m == 0 ? gbs::KnotsCalcMode::CHORD_LENGTH : m == 1 ? gbs::KnotsCalcMode::CENTRIPETAL : gbs::KnotsCalcMode::EQUALLY_SPACED; bool adim = s.chance(1, 2);
    std::vector<double> u{0}; for (size_t i = 1; i < npts; i++) { double d = dist(P[i], P[i - 1]); u.push_back(u.back() + (m == 0 ? d : m == 1 ? std::sqrt(d) : 1. / (npts - 1))); }
    if (adim) { double t = u.back(); for (auto &x : u) x /= t; }
    auto k = gbs::build_simple_mult_flat_knots(u.front(), u.back(), n, p); DISCARD_IF(!well_posed(k, p, u));
    s << "p=" << p << " points=" << npts << " poles=" << n << " mode=" << m << " adim=" << adim;
    auto c = gbs::approx(P, p, n, mode, adim);
    REQUIRE(std::abs(c.bounds()[1] - u.back()) < 1e-10 * (1 + u.back()) && c.bounds()[0] == 0);
    for (auto &x : u) x = std::min(x, c.bounds()[1]);
    optimal<3>(c, P, u, true, 1e-8);
    s.nontrivial(n < npts);
}
// refining variants: finite, ends matched, and either within the requested deviation
// or out of freedom by the documented rules
template <size_t N>
static void refined_ok(const gbs::BSCurve<double, N> &c, const std::vector<std::array<double, N>> &P, const std::vector<double> &u, size_t n0, double dmax, double davg, size_t nmax, bool fixed)
{
    for (auto &x : c.poles()) for (auto y : x) REQUIRE(std::isfinite(y));
    REQUIRE(c.poles().size() >= n0 && c.poles().size() <= P.size());
    if (fixed) REQUIRE(c.poles().front() == P.front() && c.poles().back() == P.back());
    double r = 0, avg = 0; for (size_t i = 0; i < P.size(); i++) { double d = dist(c.value(u[i]), P[i]); r = std::max(r, d); avg += d / P.size(); }
    if (r <= dmax * (1 + 1e-9) && avg <= davg * (1 + 1e-9)) return;
    if (c.poles().size() + 5 >= P.size() || c.poles().size() >= n0 + nmax) return;
    auto &k = c.knotsFlats();
    for (size_t i = 0; i < u.size(); i++)
    {
        double x = u[i]; if (dist(c.value(x), P[i]) < 1e-12) continue;
        auto it = std::lower_bound(k.begin(), k.end(), x); if (it == k.begin() || it == k.end()) continue;
        double h = *it, l = *std::prev(it); if (h <= l) continue;
        double f = (x - l) / (h - l); 
        REQUIRE_MSG(!(f > 0.331 && f < 0.669), "deviation " << r << " over the target " << dmax << " with " << c.poles().size() << " poles for " << P.size() << " points, and span [" << l << "," << h << "] could be refined at " << x);
    }
}
template <size_t N> static void refine(Src &s)
{
    size_t p = s.in(1, 5), npts = std::max<size_t>(2 * p, s.in(6, 90)); if (p == 1) npts = std::max<size_t>(npts, 3); auto u = params(s, npts); auto P = cloud<N>(s, npts); bool fixed = s.chance(2, 3);
    double dmax = s.one_of({1e-3, 1e-2, 0.1, 0.5}), davg = dmax * s.one_of({0.1, 0.5, 1.}); size_t nmax = s.one_of({200, 3, 10});
    s << "p=" << p << " points=" << npts << " dmax=" << dmax << " davg=" << davg << " nmax=" << nmax << " fixed=" << fixed << " u=" << show(u, 8) << " P=" << showp(P, 4);
    auto c = gbs::approx(P, u, p, fixed, dmax, davg, nmax);
    refined_ok<N>(c, P, u, 2 * p, dmax, davg, nmax, fixed);
    s.nontrivial(c.poles().size() > 2 * p);
}
PBT_ARM(refine_d2, 1200, 30000) { refine<2>(s); }
PBT_ARM(refine_d3, 800, 20000) { refine<3>(s); }
// approximation of a curve: domain, ends, deviation
PBT_ARM(of_curve, 600, 15000)
{
    size_t p0 = s.in(2, 4); KOpt o; o.max_spans = 3; o.ratio = 3; o.max_mult = 1; auto K = knots<double>(s, p0, o); auto P = points<double, 2>(s, K.n());
    for (size_t i = 0; i < P.size(); i++) P[i] = {P[i][0] * 0.2 + 4. * i, P[i][1] * 0.5}; // regular, no cusp
    gbs::BSCurve<double, 2> c0(P, K.flat, p0);
    size_t p = s.in(3, 5); double tol = s.one_of({1e-2, 1e-3}); int how = s.in(0, 3); bool shifted = K.lo() < 0; if (shifted) s.label("negative domain");
    s << "p0=" << p0 << " knots=" << show(K.flat) << " P=" << showp(P) << " p=" << p << " tol=" << tol << " how=" << how;
    double a = K.lo(), b = K.hi(); std::vector<double> us; 
    if (how == 1) { a = K.lo() + (K.hi() - K.lo()) * s.real(0, 0.4); b = K.lo() + (K.hi() - K.lo()) * s.real(0.6, 1); }
    auto c = how == 0 ? gbs::approx(c0, 0.05, tol, p) : how == 1 ? gbs::approx(c0, a, b, 0.05, tol, p, size_t(40)) : how == 2 ? gbs::approx(c0, 0.05, tol, p, size_t(8), size_t(40))
             : gbs::approx<double, 2>(c0, std::function<std::array<double, 2>(const std::array<double, 2> &)>([](const std::array<double, 2> &x) { return x; }), 0.05, tol, p);
    REQUIRE_MSG(std::abs(c.bounds()[0] - a) < 1e-12 * (1 + std::abs(a)) && std::abs(c.bounds()[1] - b) < 1e-12 * (1 + std::abs(b)), "bounds " << c.bounds()[0] << "," << c.bounds()[1] << " expected " << a << "," << b);
    REQUIRE(dist(c.begin(), c0.value(a)) < 1e-9 * 50 && dist(c.end(), c0.value(b)) < 1e-9 * 50);
    auto L = gbs::deviation_based_params<double, 2>(c0, a, b, how == 0 || how == 3 ? 30 : 40, 0.05); std::vector<double> u(L.begin(), L.end()); std::vector<std::array<double, 2>> Q; for (auto &x : u) { x = std::min(std::max(x, c.bounds()[0]), c.bounds()[1]); Q.push_back(c0.value(x)); }
    refined_ok<2>(c, Q, u, how == 0 ? 10 : how == 2 ? 8 : 2 * p, 10 * tol, tol, 200, false);
    s.nontrivial();
}
// points spread evenly along the curve
PBT_ARM(of_even_points, 300, 8000)
{
    size_t p0 = s.in(2, 4); KOpt o; o.max_spans = 3; o.ratio = 3; o.max_mult = 1; auto K = knots<double>(s, p0, o); auto P = points<double, 2>(s, K.n());
    for (size_t i = 0; i < P.size(); i++) P[i] = {P[i][0] * 0.2 + 4. * i, P[i][1] * 0.5};
    gbs::BSCurve<double, 2> c0(P, K.flat, p0); size_t p = s.in(2, 5), np = s.in(3 * int(p) + 2, 60);
    s << "p0=" << p0 << " knots=" << show(K.flat) << " P=" << showp(P) << " p=" << p << " points " << np; gbs::BSCurve<double, 2> c = c0; try { c = gbs::approx<double, 2>(c0, p, np); } catch (std::exception &e) { DISCARD_IF(std::string(e.what()).find("abs curve") != std::string::npos); throw; } auto L = gbs::uniform_distrib_params<double, 2>(c0, np); std::vector<double> u(L.begin(), L.end()); std::vector<std::array<double, 2>> Q; for (auto x : u) Q.push_back(c0.value(x));
    DISCARD_IF(!well_posed(c.knotsFlats(), p, u)); REQUIRE(c.degree() == p && c.poles().size() == gbs::default_n_poles(p) && c.bounds()[0] == u.front() && c.bounds()[1] == u.back()); optimal<2>(c, Q, u, true, 1e-8); s.nontrivial();
}
PBT_ARM(surface_grid, 800, 20000)
{
    size_t p = s.in(1, 4), q = s.in(1, 4), nu = p + 1 + s.in(0, 5), nv = q + 1 + s.in(0, 5), mu = nu + s.in(0, 12), mv = nv + s.in(0, 12); auto u = params(s, mu), v = params(s, mv);
    auto ku = gbs::build_simple_mult_flat_knots(u.front(), u.back(), nu, p), kv = gbs::build_simple_mult_flat_knots(v.front(), v.back(), nv, q); DISCARD_IF(!well_posed(ku, p, u) || !well_posed(kv, q, v));
    auto Q = cloud<3>(s, mu * mv); s << "p=" << p << " q=" << q << " poles " << nu << "x" << nv << " points " << mu << "x" << mv;
    auto P = gbs::approx(Q, ku, kv, u, v, p, q); REQUIRE(P.size() == nu * nv);
    auto A = basis(ku, p, u), B = basis(kv, q, v); double big = maxabs(P) + maxabs(Q);
    for (size_t d = 0; d < 3; d++)
    {
        std::vector<ref::Q> res(mu * mv);
        std::vector<ref::Q> T(nu * mv, ref::Q(0)); // sum over j
        for (size_t i = 0; i < nu; i++) for (size_t b = 0; b < mv; b++) for (size_t j = 0; j < nv; j++) T[i + nu * b] += B[b][j] * ref::Q(P[i + nu * j][d]);
        for (size_t b = 0; b < mv; b++) for (size_t a = 0; a < mu; a++) { ref::Q x = -ref::Q(Q[a + mu * b][d]); for (size_t i = 0; i < nu; i++) x += A[a][i] * T[i + nu * b]; res[a + mu * b] = x; }
        for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++)
        {
            ref::Q g = 0, w = 0; for (size_t b = 0; b < mv; b++) for (size_t a = 0; a < mu; a++) { g += A[a][i] * B[b][j] * res[a + mu * b]; w += A[a][i] * B[b][j]; }
            REQUIRE_MSG(std::abs(double(g)) <= 1e-8 * big * (1 + double(w)), "pole (" << i << "," << j << ") gradient " << double(g));
        }
    }
    s.nontrivial(nu < mu && nv < mv && mu != mv);
}
PBT_ARM(surface_constraints, 600, 15000)
{
    size_t p = s.in(1, 3), q = s.in(1, 3), nu = p + 1 + s.in(0, 3), nv = q + 1 + s.in(0, 3); auto ku = gbs::build_simple_mult_flat_knots(0., 1., nu, p), kv = gbs::build_simple_mult_flat_knots(0., 2., nv, q);
    auto r = s.bulk(); std::vector<gbs::bss_constraint<double, 2>> Q; size_t g = 3 * std::max(nu, nv);
    bool der = s.chance(1, 2);
    for (size_t i = 0; i < g; i++) for (size_t j = 0; j < g; j++) { double a = (i + 0.8 * r.unit()) / g, b = 2 * (j + 0.8 * r.unit()) / g; Q.push_back({a, b, {r.range(-5, 5), r.range(-5, 5)}, 0, 0}); if (der && r.below(4) == 0) Q.push_back({a, b, {r.range(-5, 5), r.range(-5, 5)}, r.below(2), 1}); }
    for (size_t i = Q.size(); i > 1; i--) std::swap(Q[i - 1], Q[r.below(i)]);
    s << "p=" << p << " q=" << q << " poles " << nu << "x" << nv << " constraints " << Q.size() << " derivatives " << der;
    auto S = gbs::approx<double, 2>(Q, ku, kv, p, q); REQUIRE(S.poles().size() == nu * nv);
    double big = maxabs(S.poles()) + 5;
    std::vector<std::array<ref::Q, 2>> grad(nu * nv, std::array<ref::Q, 2>{0, 0}); std::vector<double> w(nu * nv, 1.);
    for (auto &[u, v, x, du, dv] : Q)
    {
        auto U = ref::basis_ders(ku, p, u, du); auto V = ref::basis_ders(kv, q, v, dv); std::array<ref::Q, 2> e{-ref::Q(x[0]), -ref::Q(x[1])}; double ea = 5;
        for (size_t a = 0; a <= p; a++) for (size_t b = 0; b <= q; b++) { auto &P = S.poles()[U.i - p + a + nu * (V.i - q + b)]; ref::Q f = U.D[du][a] * V.D[dv][b]; e[0] += f * ref::Q(P[0]); e[1] += f * ref::Q(P[1]); ea += std::abs(double(f)) * big; }
        for (size_t a = 0; a <= p; a++) for (size_t b = 0; b <= q; b++) { size_t k = U.i - p + a + nu * (V.i - q + b); ref::Q f = U.D[du][a] * V.D[dv][b]; grad[k][0] += f * e[0]; grad[k][1] += f * e[1]; w[k] += std::abs(double(f)) * ea; }
    }
    for (size_t k = 0; k < grad.size(); k++) REQUIRE_MSG(std::abs(double(grad[k][0])) < 1e-10 * w[k] * 10 && std::abs(double(grad[k][1])) < 1e-10 * w[k] * 10, "pole " << k << " gradient " << double(grad[k][0]) << " of " << w[k]);
    s.nontrivial(der);
}
PBT_ARM(refused, 400, 5000)
{
    size_t p = s.in(1, 5), npts = s.in(6, 20); auto u = params(s, npts); auto P = cloud<2>(s, npts); int w = s.in(0, 5); bool f = s.chance(1, 2), ok = false; s << "case " << w << " p=" << p << " points=" << npts;
    try
    {
        size_t few = 1 + s.draw(p), many = npts + 1 + s.draw(4);
        if (w == 0) gbs::approx(P, p, few, u, f);
        if (w == 1) gbs::approx(P, p, many, u, f);
        if (w == 2) gbs::approx(P, p, s.chance(1, 2) ? few : many, gbs::KnotsCalcMode::CHORD_LENGTH);
        if (w == 3) { auto k = gbs::build_simple_mult_flat_knots(u.front(), u.back(), many, p); if (f) gbs::approx_bound_fixed(P, p, many, u, k); else gbs::approx(P, p, many, u, k); }
        if (w == 4) { auto k = gbs::build_simple_mult_flat_knots(0., 1., npts, p); auto v = params(s, 3); auto Q = cloud<2>(s, 9); auto uu = params(s, 3); gbs::approx(Q, k, k, uu, v, p, p); }
        if (w == 5) { DISCARD_IF(p < 2); size_t n = s.in(2, p); std::vector<double> k(n + p + 1); for (size_t i = 0; i < k.size(); i++) k[i] = i < n ? 0 : 1; auto k1 = gbs::build_simple_mult_flat_knots(0., 1., p + 1, p); auto uu = params(s, npts), vv = params(s, npts); uu.back() = 1; auto Q = cloud<3>(s, npts * npts); if (f) gbs::approx(Q, k, k1, uu, vv, p, p); else gbs::approx(Q, k1, k, uu, vv, p, p); }
    }
    catch (const std::length_error &) { ok = true; }
    REQUIRE(ok); s.nontrivial();
}
