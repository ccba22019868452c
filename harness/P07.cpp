#include "gen.h"
#include <gbs/surfaces>
#include <gbs/bssinterp.h>
const char *pbt_property = "P07";
const char *pbt_rule = "random grids of points (up to 14 x 14, u and v sizes different, dimension 1..3), degrees up to 5, every parametrisation mode, explicit parameters, and shuffled lists of point / partial-derivative constraints on repeated knots; oracle: every imposed value is recovered by quad-precision evaluation of the returned net and by the library; tensor polynomials are reproduced; malformed grids are refused; non-trivial: both directions have several spans or a derivative is imposed";
using namespace gen;

template <size_t N> static std::vector<std::array<double, N>> grid(Src &s, size_t nu, size_t nv)
{
    std::vector<std::array<double, N>> Q(nu * nv); auto r = s.bulk(); double noise = s.one_of({0., 0.3, 0.9});
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++)
        for (size_t c = 0; c < N; c++) Q[i + nu * j][c] = (c == 0 ? 2. * i + 0.3 * j : c == 1 ? 2.5 * j - 0.2 * i : std::sin(0.7 * i) * 3 + std::cos(0.4 * j + 1) * 2) + noise * r.range(-1, 1);
    return Q;
}
static std::vector<double> params(Src &s, size_t n)
{
    std::vector<double> u{0}; auto r = s.bulk(); bool un = s.chance(1, 3);
    for (size_t i = 1; i < n; i++) u.push_back(u.back() + (un ? 1. : r.range(0.3, 1)));
    double a = 0, L = 1; if (s.chance(1, 3)) { a = s.sym(5); L = s.real(0.5, 5); }
    double t = u.back(); for (auto &x : u) x = a + L * x / t; u.back() = a + L; return u;
}
template <size_t N> struct Cond { double u, v; std::array<double, N> x; size_t du, dv; };
template <size_t N> static void satisfied(const gbs::BSSurface<double, N> &S, const std::vector<Cond<N>> &Q, double K = 1)
{
    auto &P = S.poles(); auto &ku = S.knotsFlatsU(); auto &kv = S.knotsFlatsV(); size_t p = S.degreeU(), q = S.degreeV();
    for (auto &x : P) for (auto y : x) REQUIRE(std::isfinite(y));
    double big = maxabs(P);
    for (size_t i = 0; i < Q.size(); i++)
    {
        auto &c = Q[i];
        auto r = ref::surface<double, N>(ku, kv, P, p, q, c.u, c.v, c.du, c.dv)[c.du * (c.dv + 1) + c.dv];
        double m = 0; for (auto a : r.a) m = std::max(m, double(a));
        double tol = K * 1e-11 * (m + big + mag(c.x));
        auto v = S.value(c.u, c.v, c.du, c.dv);
        for (size_t k = 0; k < N; k++)
        {
            REQUIRE_MSG(std::abs(double(r.v[k] - ref::Q(c.x[k]))) <= tol, "constraint " << i << " (" << c.u << "," << c.v << ") order " << c.du << "," << c.dv << " wanted " << c.x[k] << " got " << double(r.v[k]));
            REQUIRE_MSG(std::abs(v[k] - c.x[k]) <= 2 * tol, "value() at constraint " << i << " wanted " << c.x[k] << " got " << v[k]);
        }
    }
}
static const gbs::KnotsCalcMode modes[] = {gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL, gbs::KnotsCalcMode::EQUALLY_SPACED};
static std::vector<double> averaged(size_t n, size_t m, int mode, const std::function<std::array<double, 3>(size_t, size_t)> &at)
{
    std::vector<double> r(n, 0.);
    for (size_t j = 0; j < m; j++)
    {
        std::vector<double> e{0}; for (size_t i = 1; i < n; i++) { double d = dist(at(i, j), at(i - 1, j)); e.push_back(e.back() + (mode == 0 ? d : mode == 1 ? std::sqrt(d) : 1.)); }
        for (size_t i = 0; i < n; i++) r[i] += e[i] / e.back() / m;
    }
    return r;
}
PBT_ARM(grid_mode, 2500, 60000)
{
    size_t p = s.in(1, 5), q = s.in(1, 5), nu = p + s.in(1, 9), nv = q + s.in(1, 9); int m = s.in(0, 2);
    auto Q = grid<3>(s, nu, nv);
    s << "p=" << p << " q=" << q << " nu=" << nu << " nv=" << nv << " mode=" << m << " Q=" << showp(Q, 4);
    auto S = gbs::interpolate(Q, nv, p, q, modes[m]);
    REQUIRE(S.degreeU() == p && S.degreeV() == q && S.nPolesU() == nu && S.nPolesV() == nv);
    auto b = S.bounds(); for (int i = 0; i < 4; i++) REQUIRE(std::abs(b[i] - (i % 2)) < 1e-12);
    auto u = averaged(nu, nv, m, [&](size_t i, size_t j) { return Q[i + nu * j]; }), v = averaged(nv, nu, m, [&](size_t j, size_t i) { return Q[i + nu * j]; });
    double big = 1 + maxabs(S.poles());
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++)
    {
        double uu = std::min(std::max(u[i], b[0]), b[1]), vv = std::min(std::max(v[j], b[2]), b[3]);
        auto x = S.value(uu, vv); REQUIRE_MSG(dist(x, Q[i + nu * j]) <= 1e-9 * big, "point (" << i << "," << j << ") missed by " << dist(x, Q[i + nu * j]));
    }
    // corners exactly on the data
    REQUIRE(dist(S.value(b[0], b[2]), Q[0]) < 1e-11 * big && dist(S.value(b[1], b[2]), Q[nu - 1]) < 1e-11 * big && dist(S.value(b[0], b[3]), Q[nu * (nv - 1)]) < 1e-11 * big && dist(S.value(b[1], b[3]), Q.back()) < 1e-11 * big);
    s.nontrivial(nu > p + 1 && nv > q + 1 && nu != nv);
}
template <size_t N> static void explicit_params(Src &s)
{
    size_t p = s.in(1, 5), q = s.in(1, 5), nu = p + s.in(1, 9), nv = q + s.in(1, 9); auto Q = grid<N>(s, nu, nv); auto u = params(s, nu), v = params(s, nv);
    auto ku = gbs::build_simple_mult_flat_knots<double>(u, p), kv = gbs::build_simple_mult_flat_knots<double>(v, q);
    s << "p=" << p << " q=" << q << " u=" << show(u) << " v=" << show(v);
    gbs::BSSurface<double, N> S(gbs::build_poles(Q, ku, kv, u, v, p, q), ku, kv, p, q);
    std::vector<Cond<N>> C; for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) C.push_back({u[i], v[j], Q[i + nu * j], 0, 0});
    satisfied<N>(S, C); s.nontrivial(nu > p + 1 && nv > q + 1);
}
PBT_ARM(explicit_d3, 1500, 40000) { explicit_params<3>(s); }
PBT_ARM(explicit_d1, 500, 20000) { explicit_params<1>(s); }
// shuffled point / derivative constraints, unisolvent by construction (tensor of Greville points and end derivatives)
template <size_t N> static void constraints(Src &s)
{
    struct One { double t; size_t d; };
    double B[4] = {0, 1, 0, 1}; if (s.chance(1, 3)) { B[0] = s.sym(4); B[1] = B[0] + s.real(0.5, 3); B[2] = s.sym(4); B[3] = B[2] + s.real(0.5, 3); }
    size_t mult[2], deg[2], n[2]; std::vector<One> L[2]; bool der = false;
    for (int k = 0; k < 2; k++)
    {
        deg[k] = s.in(2, 4); mult[k] = s.in(1, int(deg[k]) - 1); size_t ns = s.in(1, 3); // spans
        auto f = gbs::build_mult_flat_knots<double>(B[2 * k], B[2 * k + 1], ns + 1, deg[k], mult[k]);
        n[k] = f.size() - deg[k] - 1;
        for (size_t i = 0; i < n[k]; i++) { double g = 0; for (size_t j = 1; j <= deg[k]; j++) g += f[i + j]; L[k].push_back({i == 0 ? B[2 * k] : i + 1 == n[k] ? B[2 * k + 1] : g / deg[k], 0}); }
        if (s.chance(1, 2)) { L[k][1] = {B[2 * k], 1}; der = true; }
        if (s.chance(1, 3) && n[k] > 3) { L[k][n[k] - 2] = {B[2 * k + 1], 1}; der = true; }
    }
    std::vector<Cond<N>> C; auto r = s.bulk();
    for (auto &a : L[0]) for (auto &b : L[1]) { Cond<N> c{a.t, b.t, {}, a.d, b.d}; for (auto &x : c.x) x = r.range(-5, 5); C.push_back(c); }
    for (size_t i = C.size(); i > 1; i--) std::swap(C[i - 1], C[r.below(i)]);
    std::vector<gbs::bss_constraint<double, N>> Q; for (auto &c : C) Q.push_back({c.u, c.v, c.x, c.du, c.dv});
    s << "p=" << deg[0] << " q=" << deg[1] << " n=" << n[0] << "x" << n[1] << " mult=" << mult[0] << "," << mult[1] << " derivative=" << der << " bounds " << B[0] << "," << B[1] << "," << B[2] << "," << B[3];
    auto S = gbs::interpolate<double, N>(Q, n[1], deg[0], deg[1], {B[0], B[1], B[2], B[3]}, {mult[0], mult[1]});
    REQUIRE(S.nPolesU() == n[0] && S.nPolesV() == n[1]);
    auto b = S.bounds(); for (int i = 0; i < 4; i++) REQUIRE(std::abs(b[i] - B[i]) < 1e-12 * (1 + std::abs(B[i])));
    for (auto &c : C) { c.u = std::min(std::max(c.u, b[0]), b[1]); c.v = std::min(std::max(c.v, b[2]), b[3]); }
    satisfied<N>(S, C, 10);
    s.nontrivial(der || (n[0] > deg[0] + 1 && n[1] > deg[1] + 1));
}
PBT_ARM(constraints_d3, 1500, 40000) { constraints<3>(s); }
PBT_ARM(constraints_d1, 800, 20000) { constraints<1>(s); }
PBT_ARM(reproduction, 1000, 30000)
{
    size_t p = s.in(1, 4), q = s.in(1, 4), nu = p + s.in(1, 7), nv = q + s.in(1, 7); auto u = params(s, nu), v = params(s, nv);
    double co[5][5]; double sc = 1; for (auto &r : co) for (auto &x : r) { x = s.sym(3); sc += std::abs(x); }
    auto f = [&](double a, double b) { double x = (a - u.front()) / (u.back() - u.front()), y = (b - v.front()) / (v.back() - v.front()), r = 0; for (size_t i = 0; i <= p; i++) for (size_t j = 0; j <= q; j++) r += co[i][j] * std::pow(x, i) * std::pow(y, j); return r; };
    std::vector<std::array<double, 1>> Q; for (auto b : v) for (auto a : u) Q.push_back({f(a, b)});
    auto ku = gbs::build_simple_mult_flat_knots<double>(u, p), kv = gbs::build_simple_mult_flat_knots<double>(v, q);
    s << "p=" << p << " q=" << q << " nu=" << nu << " nv=" << nv;
    gbs::BSSurface<double, 1> S(gbs::build_poles(Q, ku, kv, u, v, p, q), ku, kv, p, q);
    for (int i = 0; i < 16; i++) { double a = std::min(u.front() + (u.back() - u.front()) * (i / 4 / 3.), u.back()), b = std::min(v.front() + (v.back() - v.front()) * (i < 12 ? i % 4 / 3. : s.unit()), v.back()); REQUIRE(std::abs(S.value(a, b)[0] - f(a, b)) < 1e-8 * sc); }
    s.nontrivial(nu > p + 1 && nv > q + 1);
}
PBT_ARM(refused, 500, 5000)
{
    size_t nu = s.in(3, 6), nv = s.in(3, 6); auto Q = grid<3>(s, nu, nv); s << "nu=" << nu << " nv=" << nv;
    int what = s.in(0, 4); bool ok = false; s << " case " << what;
    try
    {
        if (what == 0) { Q.pop_back(); DISCARD_IF(Q.size() % nv == 0); gbs::interpolate(Q, nv, 1, 1, modes[0]); }
        if (what == 1) { auto u = params(s, nu), v = params(s, nv); u.push_back(u.back() + 1); auto ku = gbs::build_simple_mult_flat_knots<double>(u, 1), kv = gbs::build_simple_mult_flat_knots<double>(v, 1); gbs::build_poles(Q, ku, kv, u, v, 1, 1); }
        if (what >= 2)
        {
            std::vector<gbs::bss_constraint<double, 3>> C; for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) C.push_back({i / double(nu - 1), j / double(nv - 1), Q[i + nu * j], 0, 0});
            if (what == 2) { size_t k = s.draw(C.size()); if (s.chance(1, 2)) std::get<0>(C[k]) = s.chance(1, 2) ? 1.001 : -0.001; else std::get<1>(C[k]) = s.chance(1, 2) ? 1.001 : -0.001; }
            else if (what == 3) { C.pop_back(); DISCARD_IF(C.size() % nv == 0); }
            std::array<size_t, 2> mu{1, 1}; if (what == 4) { bool onu = s.chance(1, 2); size_t n = (onu ? nu : nv) - 3; DISCARD_IF(n % 2 == 0); mu[!onu] = 2; }
            gbs::interpolate<double, 3>(C, nv, 2, 2, {0., 1., 0., 1.}, mu);
        }
    }
    catch (const std::length_error &) { ok = what != 2 && what != 4; }
    catch (const std::invalid_argument &) { ok = what == 2 || what == 4; }
    REQUIRE(ok); s.nontrivial();
}
