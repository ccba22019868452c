#include "gen.h"
#include <gbs/curves>
#include <gbs/bscinterp.h>
const char *pbt_property = "P06";
const char *pbt_rule = "random data points (2..260, dimension 1..3, coincident or collinear ones included), parameters (explicit, chord length, centripetal, uniform), degrees up to 9, imposed derivatives up to order 3 and general constraint lists in random order; oracle: every imposed value is recovered by a quad-precision evaluation of the returned poles and knots, by the library's own evaluation, and data sampled from a polynomial give that polynomial back; non-trivial: more constraints than the degree + 1 (several spans)";
using namespace gen;

template <typename T> static std::vector<T> params(Src &s, size_t n, double ratio = 20)
{
    std::vector<double> w(n - 1); size_t mode = s.weighted({2, 3, 2}); auto r = s.bulk();
    for (auto &x : w) x = mode == 0 ? 1. : mode == 1 ? r.range(0.3, 1.) : std::exp(r.range(-0.5, 0.5) * std::log(ratio));
    double tot = 0; for (auto x : w) tot += x;
    double a = 0, len = 1; if (s.chance(1, 3)) { a = s.sym(5); len = s.real(0.5, 10); }
    std::vector<T> u{T(a)}; double acc = 0;
    for (auto x : w) { acc += x; u.push_back(T(a + len * acc / tot)); }
    u.back() = T(a + len);
    return u;
}
template <typename T, size_t N> static std::vector<std::array<T, N>> data(Src &s, size_t n, bool distinct)
{
    std::vector<std::array<T, N>> P(n); auto r = s.bulk(); size_t mode = s.weighted({4, 2, 1});
    for (size_t i = 0; i < n; i++)
        for (size_t c = 0; c < N; c++)
            P[i][c] = T(mode == 0 ? r.range(-10, 10) : mode == 1 ? 5 * std::sin(0.3 * i + c) + (c == 0 ? 0.5 * i : 0) : (c == 0 ? double(i) : 2. * i + c));
    if (!distinct && mode == 0) for (size_t i = 1; i < n; i++) if (r.below(4) == 0) P[i] = P[i - 1];
    return P;
}
static size_t npts(Src &s, size_t lo)
{
    switch (s.weighted({6, 3, 1})) { case 0: return std::max<size_t>(lo, s.in(2, 14)); case 1: return std::max<size_t>(lo, s.in(2, 60)); default: return std::max<size_t>(lo, s.one_of({98, 99, 100, 101, 130, 250})); }
}
template <typename T, size_t N> struct Cond { T u; size_t d; std::array<T, N> v; };
// every imposed value, against the quad evaluation of the result and against the library evaluation
template <typename T, size_t N>
static void satisfied(const gbs::BSCurve<T, N> &c, const std::vector<Cond<T, N>> &Q, double K = 1)
{
    auto &P = c.poles(); auto &k = c.knotsFlats(); size_t p = c.degree();
    REQUIRE(k.size() == P.size() + p + 1);
    for (auto &x : P) for (auto y : x) REQUIRE_MSG(std::isfinite(y), "non finite pole");
    const double eps = std::numeric_limits<T>::epsilon();
    std::vector<ref::Val<N>> R; double big = 0;
    for (auto &q : Q) { auto r = ref::curve<T, N>(k, P, p, q.u, q.d)[q.d]; R.push_back(r); if (q.d == 0) for (auto a : r.a) big = std::max(big, double(a)); }
    for (size_t i = 0; i < Q.size(); i++)
    {
        double m = 0; for (auto a : R[i].a) m = std::max(m, double(a));
        double tol = K * eps * 2e6 * (m + big + mag(Q[i].v)); // growth bound of the band solver (1e4) and size
        if (std::is_same_v<T, float>) tol = K * eps * 2e3 * (m + big + mag(Q[i].v));
        auto v = c.value(Q[i].u, Q[i].d);
        for (size_t x = 0; x < N; x++)
        {
            REQUIRE_MSG(std::abs(double(R[i].v[x] - ref::Q(Q[i].v[x]))) <= tol, "condition " << i << " u=" << Q[i].u << " order " << Q[i].d << " wanted " << Q[i].v[x] << " got " << double(R[i].v[x]) << " tol " << tol);
            REQUIRE_MSG(std::abs(double(v[x]) - double(Q[i].v[x])) <= tol, "value() at condition " << i << " wanted " << Q[i].v[x] << " got " << v[x]);
        }
    }
}
template <typename T, size_t N>
static std::vector<Cond<T, N>> as_cond(const std::vector<T> &u, const std::vector<std::array<T, N>> &P)
{
    std::vector<Cond<T, N>> Q; for (size_t i = 0; i < P.size(); i++) Q.push_back({u[i], 0, P[i]}); return Q;
}
template <typename T, size_t N> static void points_explicit(Src &s)
{
    size_t p = s.weighted({5, 2}) == 0 ? s.in(1, 4) : s.in(1, sizeof(T) == 4 ? 5 : 9);
    size_t n = npts(s, p + 1);
    auto u = params<T>(s, n, p > 5 ? 3 : 20); auto P = data<T, N>(s, n, false);
    s << "p=" << p << " n=" << n << " u=" << show(u, 12) << " P=" << showp(P, 6);
    auto c = gbs::interpolate(P, u, p);
    REQUIRE(c.degree() == p && c.poles().size() == n);
    auto b = c.bounds(); REQUIRE(b[0] == u.front() && b[1] == u.back());
    satisfied<T, N>(c, as_cond<T, N>(u, P));
    REQUIRE(dist(c.begin(), P.front()) <= 1e4 * std::numeric_limits<T>::epsilon() * (1 + maxabs(P)) && dist(c.end(), P.back()) <= 1e4 * std::numeric_limits<T>::epsilon() * (1 + maxabs(P)));
    s.nontrivial(n > p + 1);
}
PBT_ARM(points_d3, 2500, 80000) { points_explicit<double, 3>(s); }
PBT_ARM(points_d2, 1500, 50000) { points_explicit<double, 2>(s); }
PBT_ARM(points_d1, 800, 30000) { points_explicit<double, 1>(s); }
PBT_ARM(points_float, 800, 30000) { points_explicit<float, 3>(s); }

static const gbs::KnotsCalcMode modes[] = {gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL, gbs::KnotsCalcMode::EQUALLY_SPACED};
template <typename T, size_t N>
static std::vector<T> own_params(const std::vector<std::array<T, N>> &P, int mode, bool adim)
{
    std::vector<double> e{0}; for (size_t i = 1; i < P.size(); i++) { double d = dist(P[i], P[i - 1]); e.push_back(e.back() + (mode == 0 ? d : mode == 1 ? std::sqrt(d) : 1. / (P.size() - 1))); }
    std::vector<T> u; for (auto x : e) u.push_back(T(adim ? x / e.back() : x)); return u;
}
template <size_t N> static void points_mode(Src &s)
{
    size_t p = s.in(1, 6), n = npts(s, p + 1); auto P = data<double, N>(s, n, true);
    for (size_t i = 1; i < n; i++) if (dist(P[i], P[i - 1]) < 0.5) P[i][0] += 1; // chord ratios stay moderate
    int m = s.in(0, 2);
    s << "p=" << p << " n=" << n << " mode=" << m << " P=" << showp(P, 6);
    auto c = gbs::interpolate(P, p, modes[m]);
    auto u = own_params(P, m, true); u.back() = c.bounds()[1];
    REQUIRE(std::abs(u.back() - 1) < 1e-12 && c.bounds()[0] == 0);
    // the quad check uses parameters rebuilt independently: differences of some ulp move the value by tangent*ulp
    auto b = c.bounds(); double big = maxabs(c.poles());
    for (size_t i = 0; i < n; i++) { double uu = std::min(u[i], b[1]); auto v = c.value(uu); auto t = c.value(uu, 1); REQUIRE_MSG(dist(v, P[i]) <= 1e-10 * (big + 1) + mag(t) * 1e-13, "point " << i << " missed by " << dist(v, P[i])); }
    auto cc = gbs::interpolate(P, gbs::curve_parametrization(P, modes[m], true), p);
    satisfied<double, N>(cc, as_cond<double, N>(gbs::curve_parametrization(P, modes[m], true), P));
    REQUIRE(cc.poles() == c.poles() && cc.knotsFlats() == c.knotsFlats());
    s.nontrivial(n > p + 1);
}
PBT_ARM(mode_d3, 1500, 50000) { points_mode<3>(s); }
PBT_ARM(mode_d2, 1000, 30000) { points_mode<2>(s); }
// degree not below the number of points is refused, never a wrong curve
PBT_ARM(degree_too_high, 300, 5000)
{
    size_t n = s.in(2, 8), p = n + s.in(0, 4); auto P = data<double, 2>(s, n, true); s << "n=" << n << " p=" << p;
    bool thrown = false; try { gbs::interpolate(P, p, modes[s.in(0, 2)]); } catch (const std::domain_error &) { thrown = true; }
    REQUIRE(thrown);
    thrown = false; std::vector<gbs::bsc_constraint<double, 2>> L; size_t m = s.in(0, 3); for (size_t i = 0; i < m; i++) L.push_back({0.2 + 0.1 * i, {1., 2.}, 0});
    size_t pp = m + 2 + s.in(0, 3);
    try { gbs::interpolate(gbs::bsc_bound<double, 2>{0., {0., 0.}}, gbs::bsc_bound<double, 2>{1., {1., 1.}}, L, pp); } catch (const std::invalid_argument &) { thrown = true; }
    REQUIRE(thrown); s.nontrivial();
}
// Hermite data of order nc-1 at every point: degree 2*nc-1
template <size_t N, size_t nc> static void hermite(Src &s)
{
    size_t n = s.weighted({4, 1}) == 0 ? s.in(2, 12) : s.in(2, 60); auto u = params<double>(s, n, nc > 2 ? 4 : 10);
    std::vector<gbs::constrType<double, N, nc>> Q(n); auto r = s.bulk();
    double h = (u.back() - u.front()) / n;
    for (auto &q : Q) { double f = 1; for (auto &v : q) { for (auto &x : v) x = r.range(-10, 10) * f; f /= h; } }
    bool add = nc < 4 && s.chance(1, 3) && n >= 3, mode = !add && s.chance(1, 4);
    if (mode) { for (size_t i = 1; i < n; i++) if (dist(Q[i][0], Q[i - 1][0]) < 2) Q[i][0][0] += 4; std::vector<std::array<double, N>> P; for (auto &q : Q) P.push_back(q[0]); u = own_params(P, 0, false); }
    s << "nc=" << nc << " n=" << n << " add_computed=" << add << " mode=" << mode << " u=" << show(u, 12);
    auto c = mode ? gbs::interpolate<double, N, nc>(Q, gbs::KnotsCalcMode::CHORD_LENGTH) : gbs::interpolate<double, N, nc>(Q, u, add);
    size_t k = nc + add; REQUIRE(c.degree() == 2 * k - 1 && c.poles().size() == n * k);
    if (mode) { REQUIRE(c.knotsFlats().size() > 0); for (size_t i = 0; i < n; i++) { auto &f = c.knotsFlats(); double best = 1e9; for (auto x : f) if (std::abs(x - u[i]) < best) best = std::abs(x - u[i]); REQUIRE(best < 1e-9 * (1 + u.back())); for (auto x : f) if (std::abs(x - u[i]) == best) u[i] = x; } }
    std::vector<Cond<double, N>> L;
    for (size_t i = 0; i < n; i++) for (size_t d = 0; d < nc; d++) L.push_back({u[i], d, Q[i][d]});
    if (add) { L.push_back({u.front(), nc, {}}); L.push_back({u.back(), nc, {}}); }
    satisfied<double, N>(c, L);
    s.nontrivial(n > 2);
}
PBT_ARM(hermite1, 500, 20000) { hermite<3, 1>(s); }
PBT_ARM(hermite2, 800, 30000) { hermite<3, 2>(s); }
PBT_ARM(hermite2_d2, 500, 20000) { hermite<2, 2>(s); }
PBT_ARM(hermite3, 800, 30000) { hermite<2, 3>(s); }
PBT_ARM(hermite4, 500, 20000) { hermite<3, 4>(s); }
// general constraint lists: points and derivatives, any order of the list
template <size_t N> static void general(Src &s)
{
    size_t p = s.in(2, 5), n = npts(s, p + 3); if (n > 140) n = 140;
    auto u = params<double>(s, n, 6); auto P = data<double, N>(s, n, true);
    auto mk = [&](size_t d) { std::array<double, N> v; auto r = s.bulk(); for (auto &x : v) x = r.range(-10, 10) * std::pow(double(n) / (u.back() - u.front()), double(d)); return v; };
    // derivatives at the ends and at a few points; a derivative adds one parameter -> one more pole
    std::vector<gbs::bsc_constraint<double, N>> L; std::vector<Cond<double, N>> Q;
    for (size_t i = 1; i + 1 < n; i++) { L.push_back({u[i], P[i], 0}); Q.push_back({u[i], 0, P[i]}); }
    int nd = 0;
    for (size_t i : {size_t(0), n - 1, 1 + s.draw(n - 2)})
        if (s.chance(2, 3)) { size_t dm = (i == 0 || i == n - 1) && p > 2 && s.chance(1, 4) ? 2 : 1; for (size_t d = 1; d <= dm; d++) { auto v = mk(d); L.push_back({u[i], v, d}); Q.push_back({u[i], d, v}); nd++; } }
    // random order of the list
    for (size_t i = L.size(); i > 1; i--) std::swap(L[i - 1], L[s.draw(i)]);
    s << "p=" << p << " n=" << n << " derivatives=" << nd << " u=" << show(u, 10);
    auto c = gbs::interpolate(gbs::bsc_bound<double, N>{u.front(), P.front()}, gbs::bsc_bound<double, N>{u.back(), P.back()}, L, p);
    Q.push_back({u.front(), 0, P.front()}); Q.push_back({u.back(), 0, P.back()});
    REQUIRE(c.degree() == p && c.poles().size() == Q.size());
    satisfied<double, N>(c, Q, 10);
    // same constraints through the pole solver, in another order
    std::vector<gbs::constrPoint<double, N>> G; for (auto &q : Q) G.push_back({q.v, q.u, q.d});
    for (size_t i = G.size(); i > 1; i--) std::swap(G[i - 1], G[s.draw(i)]);
    auto poles = gbs::build_poles(G, c.knotsFlats(), p);
    gbs::BSCurve<double, N> c2(poles, c.knotsFlats(), p);
    satisfied<double, N>(c2, Q, 10);
    s.nontrivial(nd > 0);
}
PBT_ARM(general_d3, 1500, 50000) { general<3>(s); }
PBT_ARM(general_d2, 800, 30000) { general<2>(s); }
// uniqueness: data of a polynomial of degree <= p are reproduced everywhere
PBT_ARM(polynomial_reproduction, 1500, 50000)
{
    size_t p = s.in(1, 6), n = s.in(int(p) + 1, 40); auto u = params<double>(s, n, 5);
    double a = u.front(), L = u.back() - a; size_t deg = s.in(0, int(p)); std::vector<double> co; for (size_t i = 0; i <= deg; i++) co.push_back(s.sym(5));
    auto f = [&](double t) { double x = (t - a) / L, r = 0; for (size_t i = co.size(); i-- > 0;) r = r * x + co[i]; return r; };
    std::vector<double> y; std::vector<std::array<double, 2>> P; for (auto t : u) { y.push_back(f(t)); P.push_back({t, f(t)}); }
    s << "p=" << p << " n=" << n << " coefficients=" << show(co) << " u=" << show(u, 12);
    auto c = gbs::interpolate(P, u, p); auto g = gbs::interpolate<double>(y, u, p);
    REQUIRE(g.bounds() == c.bounds());
    for (int i = 0; i < 20; i++)
    {
        double t = a + L * (i < 12 ? i / 11. : s.unit()); t = std::min(t, u.back());
        double sc = 1; for (auto x : co) sc += std::abs(x);
        REQUIRE_MSG(std::abs(c.value(t)[1] - f(t)) <= 1e-8 * sc && std::abs(c.value(t)[0] - t) < 1e-8 * (1 + std::abs(t)), "t=" << t << " got " << c.value(t)[1] << " expected " << f(t));
        REQUIRE(std::abs(g(t) - f(t)) <= 1e-8 * sc);
    }
    s.nontrivial(n > p + 1 && deg > 1);
}
