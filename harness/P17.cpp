#include "gen.h"
#include "shapes.h"
#include <numbers>
#include <gbs/transform.h>
#include <gbs/transformpoints.h>
#include <gbs/polestools.h>
#include <gbs/bscinterp.h>
const char *pbt_property = "P17";
const char *pbt_rule = "random curves and surfaces (with and without weights, dimensions 1 to 3) under random rigid, scaling and affine maps, frames, vectors, pole grids and ranges; oracle: the map applied to the quad-precision value of the original, Rodrigues' formula in long double, algebraic identities; non-trivial: the map is not the identity and the shape is not a point";
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/; using gbs::operator^; using gbs::operator+=;
using A3 = std::array<double, 3>;
using L3 = std::array<long double, 3>;
static A3 dir3(Src &s) { A3 a{}; if (s.chance(1, 4)) { a[s.draw(3)] = s.one_of({1., -1., 2.5, 1e-3, 100.}); return a; } for (auto &x : a) x = s.sym(2); if (mag(a) < 0.3) a[s.draw(3)] += 1; return a; }
static double ang(Src &s) { return s.chance(1, 3) ? s.one_of({0., 0.5, 1., 1.5, 2., -0.5, -1., 1. / 6}) * std::numbers::pi : s.sym(7); }
// Rodrigues
static A3 rot(const A3 &x, double a, const A3 &ax)
{
    long double n = 0; for (auto v : ax) n += (long double)v * v; n = sqrtl(n); L3 k; for (int i = 0; i < 3; i++) k[i] = ax[i] / n; long double c = cosl(a), s = sinl(a), d = k[0] * x[0] + k[1] * x[1] + k[2] * x[2]; L3 w{k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0]}; A3 r; for (int i = 0; i < 3; i++) r[i] = double(x[i] * c + w[i] * s + k[i] * d * (1 - c)); return r;
}
template <size_t N> using P = std::array<double, N>;
template <size_t N> struct Map { std::function<P<N>(const P<N> &)> f; double gain; std::string what; std::function<void(void *, int)> apply; };
// apply op k to any geometry G, returns the map
template <size_t N, bool surf, typename G> static std::pair<std::function<P<N>(P<N>)>, double> apply(Src &s, G &g)
{
    int k = s.in(0, 3);
    if (k == 0) // turn
    {
        double a = ang(s); s << " turn " << a; if constexpr (N == 2) { gbs::rotate(g, a); return {[a](P<2> x) { long double c = cosl(a), z = sinl(a); return P<2>{double(c * x[0] - z * x[1]), double(z * x[0] + c * x[1])}; }, 1.}; } else if constexpr (N == 3) { auto ax = dir3(s); s << " about " << show(ax); gbs::rotate(g, a, ax); return {[a, ax](P<3> x) { return rot(x, a, ax); }, 1.}; }
    }
    if constexpr (!surf) if (k == 1) { P<N> v; for (auto &x : v) x = s.sym(20); s << " move " << show(v); gbs::translate(g, v); return {[v](P<N> x) { for (size_t i = 0; i < N; i++) x[i] += v[i]; return x; }, 1.}; }
    if (k == 2) { double f = s.one_of({-1., 0.5, 2., 3., 0.}); if (s.chance(1, 2)) f = s.sym(4); P<N> c{}; bool def = s.chance(1, 3); if (!def) for (auto &x : c) x = s.sym(10); s << " scale " << f << " about " << show(c); bool one = !surf && s.chance(1, 2); size_t q = s.draw(N); if constexpr (!surf) if (one) { s << " along " << q; if (def) gbs::scale(g, f, q); else gbs::scale(g, f, q, c); return {[f, c, q](P<N> x) { x[q] = c[q] + f * (x[q] - c[q]); return x; }, std::abs(f) + 1}; } if (def) gbs::scale(g, f); else gbs::scale(g, f, c); return {[f, c](P<N> x) { for (size_t i = 0; i < N; i++) x[i] = c[i] + f * (x[i] - c[i]); return x; }, std::abs(f) + 1}; }
    // general affine map
    std::array<P<N>, N> M; P<N> t; auto r = s.bulk(); for (auto &row : M) for (auto &x : row) x = r.range(-2, 2); for (auto &x : t) x = r.range(-5, 5); s << " affine"; auto f = [M, t](P<N> x) { P<N> y = t; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) y[i] += M[i][j] * x[j]; return y; };
    if (s.chance(1, 2)) g = gbs::transformed(g, f); else gbs::transform(g, f); return {f, 6.};
}
template <size_t N, bool rat> static void curves(Src &s)
{
    auto c = gcrv<N, rat>(s, 1, 5, 4); auto g = c.make(); auto g0 = g; int n = s.in(1, 4); s << "p=" << c.K.p << " n=" << c.K.n() << (rat ? " rational" : ""); std::vector<std::function<P<N>(P<N>)>> fs; double gain = 1, off = 0;
    for (int i = 0; i < n; i++) { auto [f, q] = apply<N, false>(s, g); fs.push_back(f); gain *= q; off = off * q + 60; }
    REQUIRE_MSG(g.knotsFlats() == c.K.flat && g.degree() == c.K.p && g.poles().size() == c.P.size(), "knots, degree or number of poles changed"); if constexpr (rat) for (size_t i = 0; i < c.P.size(); i++) REQUIRE_MSG(std::abs(g.poles()[i][N] - c.P[i][N]) <= 1e-14 * c.P[i][N], "weight " << i << " changed");
    double tol = 1e-12 * (c.scale() + 1 + off) * (gain + 1);
    for (int k = 0; k < 4; k++) { double u = k < 2 ? (k ? c.K.hi() : c.K.lo()) : param(s, c.K); P<N> e = c.val(u); for (auto &f : fs) e = f(e); near<N>(g.value(u), e, tol, "point", u); }
    REQUIRE(g0.poles() == c.P); s.nontrivial();
}
PBT_ARM(curve_d1, 300, 9000) { curves<1, false>(s); }
PBT_ARM(curve_d2, 300, 9000) { curves<2, false>(s); }
PBT_ARM(curve_d3, 300, 9000) { curves<3, false>(s); }
PBT_ARM(rational_d1, 200, 6000) { curves<1, true>(s); }
PBT_ARM(rational_d2, 300, 9000) { curves<2, true>(s); }
PBT_ARM(rational_d3, 300, 9000) { curves<3, true>(s); }
template <bool rat> static void surfaces(Src &s)
{
    auto S = gsrf<rat>(s, 1, 4, false); auto g = S.make(); int n = s.in(1, 4); std::vector<std::function<A3(A3)>> fs; double gain = 1, off = 0; s << "pu=" << S.U.p << " pv=" << S.V.p;
    for (int i = 0; i < n; i++) { auto [f, q] = apply<3, true>(s, g); fs.push_back(f); gain *= q; off = off * q + 60; }
    REQUIRE_MSG(g.knotsFlatsU() == S.U.flat && g.knotsFlatsV() == S.V.flat && g.degreeU() == S.U.p && g.degreeV() == S.V.p && g.poles().size() == S.P.size(), "knots, degrees or number of poles changed"); if constexpr (rat) for (size_t i = 0; i < S.P.size(); i++) REQUIRE_MSG(std::abs(g.poles()[i][3] - S.P[i][3]) <= 1e-14 * S.P[i][3], "weight " << i << " changed");
    double tol = 1e-12 * (S.scale() + 1 + off) * (gain + 1); for (int k = 0; k < 4; k++) { double u = param(s, S.U), v = param(s, S.V); A3 e = S.val(u, v); for (auto &f : fs) e = f(e); near<3>(g.value(u, v), e, tol, "point", u); } s.nontrivial();
}
PBT_ARM(surface, 200, 6000) { surfaces<false>(s); }
PBT_ARM(rational_surface, 200, 6000) { surfaces<true>(s); }
PBT_ARM(points, 1500, 40000)
{
    A3 x, y, v; for (auto *p : {&x, &y, &v}) for (auto &c : *p) c = s.sym(10); double a = ang(s), b = ang(s), f = s.sym(4); auto ax = dir3(s); P<2> p{x[0], x[1]}, o{y[0], y[1]}; s << "x=" << show(x) << " a=" << a << " axis " << show(ax); auto R = gbs::rotated(x, a, ax), Q = gbs::rotated(y, a, ax); double m = 1e-13 * (1 + mag(x) + mag(y) + mag(v)); REQUIRE_MSG(dist(R, rot(x, a, ax)) < m, "turned point");
    REQUIRE(std::abs(dist(R, Q) - dist(x, y)) < m); REQUIRE(dist(gbs::rotated(R, b, ax), gbs::rotated(x, a + b, ax)) < 2 * m && dist(gbs::rotated(R, -a, ax), x) < 2 * m); A3 on = ax * f; REQUIRE(dist(gbs::rotated(on, a, ax), on) < m + 1e-13 * mag(on));
    auto r2 = gbs::rotated(p, a); REQUIRE(std::abs(r2[0] - (std::cos(a) * p[0] - std::sin(a) * p[1])) < m && std::abs(r2[1] - (std::sin(a) * p[0] + std::cos(a) * p[1])) < m); auto q = p; gbs::rotate(q, a, o); REQUIRE_MSG(std::abs(dist(q, o) - dist(p, o)) < m && dist(q, o + gbs::rotated(p - o, a)) < m, "turn about a centre");
    REQUIRE(gbs::translated(x, v) == x + v); auto xt = x; gbs::translate(xt, v); REQUIRE(xt == x + v); auto sc = gbs::scaled(x, f, y); for (int i = 0; i < 3; i++) REQUIRE(std::abs(sc[i] - (y[i] + f * (x[i] - y[i]))) < 1e-13 * 100); size_t c = s.draw(3); auto s1 = gbs::scaled(x, f, c, y); for (size_t i = 0; i < 3; i++) REQUIRE(i == c ? s1[i] == sc[i] || std::abs(s1[i] - sc[i]) < 1e-12 : s1[i] == x[i]); auto s2 = x; gbs::scale(s2, f, y); REQUIRE(s2 == sc);
    std::array<double, 4> h = {x[0] * 2, x[1] * 2, x[2] * 2, 2}; auto h0 = h; gbs::translate<double, 3>(h, v); REQUIRE((gbs::translated<double, 3>(h0, v) == h)); auto rp = gbs::rotated<double, 2>(p, a, o); REQUIRE(rp == q); for (int i = 0; i < 3; i++) REQUIRE(std::abs(h[i] / h[3] - x[i] - v[i]) < m); auto d4 = gbs::add_dimension(x, f); REQUIRE(d4[0] == x[0] && d4[1] == x[1] && d4[2] == x[2] && d4[3] == f); s.nontrivial();
}
static gbs::ax2<double, 3> frame(Src &s) { for (;;) { A3 O{s.sym(8), s.sym(8), s.sym(8)}; auto z = dir3(s), x = dir3(s); double nz = mag(z), d = (x[0] * z[0] + x[1] * z[1] + x[2] * z[2]) / nz / nz; for (int k = 0; k < 3; k++) x[k] -= d * z[k]; if (mag(x) > 0.1 * nz && mag(x) > 1e-4) return {{O, z, x}}; O[0] += 1; x = {1, 0, 0}; if (nz == std::abs(z[0])) x = {0, 1, 0}; d = (x[0] * z[0] + x[1] * z[1] + x[2] * z[2]) / nz / nz; for (int k = 0; k < 3; k++) x[k] -= d * z[k]; return {{O, z, x}}; } }
PBT_ARM(frames, 1000, 30000)
{
    auto A = frame(s), B = frame(s); s << "from " << show(A[0]) << show(A[1]) << show(A[2]) << " to " << show(B[0]) << show(B[1]) << show(B[2]); A3 q; for (auto &c : q) c = s.sym(5);
    auto unit = [](A3 a) { double n = mag(a); for (auto &x : a) x /= n; return a; }; auto pt = [&](const gbs::ax2<double, 3> &R) { auto X = unit(R[2]), Z = unit(R[1]); auto Y = gbs::cross(Z, X); A3 p; for (int k = 0; k < 3; k++) p[k] = R[0][k] + q[0] * X[k] + q[1] * Y[k] + q[2] * Z[k]; return p; };
    auto M = gbs::build_trf_matrix(A); REQUIRE_MSG(dist(gbs::transformed(q, M), pt(A)) < 1e-12 * 30, "local coordinates"); auto M2 = gbs::build_trf_matrix(A, B); REQUIRE_MSG(dist(gbs::transformed(pt(A), M2), pt(B)) < 1e-12 * 100, "a point fixed in the first frame lands at " << show(gbs::transformed(pt(A), M2)) << " instead of " << show(pt(B)));
    auto [L, R] = gbs::build_trf_loc_and_matrix(A, B); auto p = q; gbs::transform(p, L, R); REQUIRE(dist(p, gbs::transformed(q, M2)) < 1e-11); auto back = gbs::build_trf_matrix(B, A); REQUIRE(dist(gbs::transformed(gbs::transformed(q, M2), back), q) < 1e-11); auto C = frame(s); auto AC = gbs::build_trf_matrix(A, C), BC = gbs::build_trf_matrix(B, C); REQUIRE(dist(gbs::transformed(gbs::transformed(q, M2), BC), gbs::transformed(q, AC)) < 1e-11); REQUIRE(std::abs(R.determinant() - 1) < 1e-12); s.nontrivial();
}
template <size_t N> static void vectors(Src &s)
{
    P<N> a, b, c; for (auto *p : {&a, &b, &c}) for (auto &x : *p) x = s.chance(1, 6) ? 0 : s.chance(1, 2) ? s.sym(10) : double(s.in(-9, 9)); double f = s.chance(1, 2) ? double(s.in(-8, 8)) : s.sym(5); s << show(a) << show(b) << " f=" << f; long double d = 0, n = 0, ds = 0; for (size_t i = 0; i < N; i++) { d += (long double)a[i] * b[i]; n += (long double)a[i] * a[i]; ds += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]); }
    double e = 1e-13 * (1 + double(n) + double(ds)); REQUIRE(std::abs(a * b - double(d)) < e && std::abs(gbs::sq_norm(a) - double(n)) < e && std::abs(gbs::norm(a) - double(sqrtl(n))) < e && std::abs(gbs::distance(a, b) - double(sqrtl(ds))) < e && std::abs(gbs::sq_distance(a, b) - double(ds)) < e);
    auto add = a + b, sub = a - b, sc = a * f, cs = f * a; auto ip = a; ip += b; auto sl = a - f, sr = f - a; for (size_t i = 0; i < N; i++) REQUIRE(add[i] == a[i] + b[i] && sub[i] == a[i] - b[i] && sc[i] == a[i] * f && cs[i] == sc[i] && ip[i] == add[i] && sl[i] == a[i] - f && sr[i] == f - a[i]); if (f) { auto q = a / f; for (size_t i = 0; i < N; i++) REQUIRE(std::abs(q[i] - a[i] / f) <= 1e-15 * std::abs(a[i] / f) * 4); }
    if (n > 1e-6) { auto u = gbs::normalized(a), v = a, w = a; gbs::normalize(v); gbs::adim(w); REQUIRE(u == v && std::abs(gbs::norm(u) - 1) < 1e-14); for (size_t i = 0; i < N; i++) REQUIRE(std::abs(u[i] * double(sqrtl(n)) - a[i]) < e && std::abs(w[i] - u[i]) < 1e-14); }
    if constexpr (N == 3) { auto x = gbs::cross(a, b), y = b ^ a; REQUIRE(std::abs(x * a) < 40 * e && std::abs(x * b) < 40 * e); for (int i = 0; i < 3; i++) REQUIRE(x[i] == -y[i]); long double bb = b * b; REQUIRE(std::abs(double(x * x - (n * bb - d * d))) < 1e-11 * (1 + double(n * bb))); A3 ex{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; REQUIRE(dist(x, ex) < 1e-12 * (1 + double(n))); if (n > 1e-3 && bb > 1e-3) { double an = gbs::angle(a, b); REQUIRE(an >= 0 && an <= std::numbers::pi + 1e-15 && std::abs(std::cos(an) * gbs::norm(a) * gbs::norm(b) - double(d)) < 1e-11); } }
    if constexpr (N == 2) { auto x = gbs::cross(a, b); REQUIRE(std::abs(x[0] - (a[0] * b[1] - a[1] * b[0])) < 1e-12 * (1 + double(n))); if (n > 1e-3 && b * b > 1e-3) { double an = gbs::angle(a, b); auto t = gbs::rotated(a, an); double k = gbs::norm(b) / gbs::norm(a); REQUIRE(dist(t * k, b) < 1e-11); } }
    std::vector<P<N>> l{a, b, c, a}; REQUIRE(std::abs(gbs::length(l) - (gbs::distance(a, b) + gbs::distance(b, c) + gbs::distance(c, a))) < 1e-12 * 100); auto dl = gbs::delta(l); REQUIRE(dl.size() == 3 && dl[0] == b - a && dl[1] == c - b && dl[2] == a - c); std::vector<P<N>> l2{c, a, b, b}; auto d2 = gbs::delta(l, l2); for (int i = 0; i < 4; i++) REQUIRE(d2[i] == l2[i] - l[i]); s.nontrivial();
}
PBT_ARM(vectors_d1, 600, 20000) { vectors<1>(s); }
PBT_ARM(vectors_d2, 600, 20000) { vectors<2>(s); }
PBT_ARM(vectors_d3, 600, 20000) { vectors<3>(s); }
PBT_ARM(weights, 400, 12000)
{
    size_t n = s.in(1, 12); auto r = s.bulk(); std::vector<P<4>> h(n); std::vector<A3> p(n); std::vector<double> w(n); for (size_t i = 0; i < n; i++) { w[i] = r.range(0.05, 8); for (int k = 0; k < 3; k++) { p[i][k] = r.range(-9, 9); h[i][k] = p[i][k] * w[i]; } h[i][3] = w[i]; } s << n << " poles"; auto hw = gbs::add_weights_coord(p, w); std::vector<A3> q; std::vector<double> v; gbs::separate_weights(hw, q, v); auto one = gbs::add_weights_coord(p); REQUIRE(v == w && q.size() == n);
    for (size_t i = 0; i < n; i++) { REQUIRE(hw[i] == h[i] && dist(q[i], p[i]) < 1e-14 * 20 && one[i][3] == 1 && one[i][0] == p[i][0] && one[i][1] == p[i][1] && one[i][2] == p[i][2]); REQUIRE(gbs::weight_projection(h[i]) == q[i] && gbs::add_weight(p[i], w[i]) == h[i]); }
    double mean = s.real(0.1, 5), f = s.real(0.1, 5), m = 0; for (auto x : w) m += x / n; auto a = h; gbs::scale_weights(a, mean); auto b = gbs::scaled_weights(h, mean); auto c = gbs::scaled_poles(h, f); double ma = 0, mb = 0; for (size_t i = 0; i < n; i++) { ma += a[i][3] / n; mb += b[i][3] / n; REQUIRE(dist(gbs::weight_projection(a[i]), p[i]) < 1e-12 && dist(gbs::weight_projection(b[i]), p[i]) < 1e-12); for (int k = 0; k < 4; k++) REQUIRE(c[i][k] == h[i][k] * f); }
    REQUIRE_MSG(std::abs(ma - mean) < 1e-12 && std::abs(mb - mean) < 1e-12, "mean weights " << ma << " and " << mb << " instead of " << mean); bool t = false; w.push_back(1); try { gbs::add_weights_coord(p, w); } catch (std::length_error &) { t = true; } REQUIRE(t); s.nontrivial(n > 1);
}
PBT_ARM(pole_grids, 400, 12000)
{
    size_t nu = s.in(1, 14), nv = s.in(1, 14), bs = s.in(1, 16); std::vector<std::vector<A3>> g(nu, std::vector<A3>(nv)); for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) g[i][j] = {double(i), double(j), i * 0.5 - j}; s << nu << "x" << nv << " block " << bs; auto t = gbs::transpose_poles(g), b = gbs::transpose_poles(g, bs); REQUIRE(t.size() == nv && b == t); for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) REQUIRE(t[j].size() == nu && t[j][i] == g[i][j]); REQUIRE(gbs::transpose_poles(t) == g); auto f = gbs::flatten_poles(g); REQUIRE(f.size() == nu * nv); for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) REQUIRE(f[i * nv + j] == g[i][j]); s.nontrivial(nu > 1 && nv > 1);
}
PBT_ARM(ranges, 500, 15000)
{
    double a = s.sym(10), b = s.sym(10); size_t n = s.in(2, 60), m = s.in(2, 12), q = s.in(2, 8); s << a << " to " << b << " by " << n; auto e = [](double a, double b, size_t i, size_t n) { return a + (b - a) * double(i) / double(n - 1); }; auto r = gbs::make_range(a, b, n); REQUIRE(r.size() == n && r.front() == a && r.back() == b); for (size_t i = 0; i < n; i++) REQUIRE(std::abs(r[i] - e(a, b, i, n)) < 1e-12); REQUIRE(gbs::make_range(std::array<double, 2>{a, b}, n) == r); double c = s.sym(4), d = s.sym(4), f = s.sym(4), g = s.sym(4);
    auto r2 = gbs::make_range(std::array<double, 4>{a, b, c, d}, n, m); REQUIRE(r2.size() == n * m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) REQUIRE(std::abs(r2[j + m * i].first - e(a, b, i, n)) < 1e-12 && std::abs(r2[j + m * i].second - e(c, d, j, m)) < 1e-12); REQUIRE(r2.back().first == b && r2.back().second == d && r2.front().first == a && r2.front().second == c);
    auto r3 = gbs::make_range(std::array<double, 4>{a, b, c, d}, std::array<double, 2>{f, g}, m, q, 3); REQUIRE(r3.size() == m * q * 3 && std::get<0>(r3.back()) == b && std::get<1>(r3.back()) == d && std::get<2>(r3.back()) == g); size_t i = s.draw(m), j = s.draw(q), k = s.draw(3); auto x = r3[k + 3 * (j + q * i)]; REQUIRE(std::abs(std::get<0>(x) - e(a, b, i, m)) < 1e-12 && std::abs(std::get<1>(x) - e(c, d, j, q)) < 1e-12 && std::abs(std::get<2>(x) - e(f, g, k, 3)) < 1e-12);
    int lo = s.in(-20, 20), hi = lo + s.in(1, 30); auto ri = gbs::make_range(lo, hi); REQUIRE(int(ri.size()) == hi - lo + 1); for (int z = lo; z <= hi; z++) REQUIRE(ri[z - lo] == z); int t = 0; try { gbs::make_range(a, b, size_t(s.draw(2))); } catch (std::length_error &) { t++; } try { gbs::make_range(lo, lo); } catch (std::length_error &) { t++; } REQUIRE(t == 2); REQUIRE(std::abs(gbs::degrees(gbs::radians(a)) - a) < 1e-13 * 20 && std::abs(gbs::radians(180.) - std::numbers::pi) < 1e-15);
    size_t N = s.in(0, 40), K = s.draw(N + 1); long double bn = 1; for (size_t z = 1; z <= K; z++) bn = bn * (N - K + z) / z; REQUIRE(std::abs(gbs::binomial_law<double>(N, K) - double(bn)) <= 1e-12 * double(bn)); REQUIRE(gbs::sgn(a) == (a > 0) - (a < 0) && gbs::sgn(0.) == 0); s.nontrivial();
}
PBT_ARM(bessel_tangents, 400, 12000)
{
    size_t n = s.in(3, 12); auto r = s.bulk(); std::vector<double> u(n); double t = s.sym(3); for (auto &x : u) { x = t; t += r.range(0.1, 2); } A3 c[3]; for (auto &x : c) for (auto &y : x) y = r.range(-3, 3); bool line = s.chance(1, 4); if (line) { c[2] = {}; if (mag(c[1]) < 0.1) c[1] = {1, 0, 0}; } std::vector<A3> p(n), d(n); for (size_t i = 0; i < n; i++) for (int k = 0; k < 3; k++) { p[i][k] = c[0][k] + c[1][k] * u[i] + c[2][k] * u[i] * u[i]; d[i][k] = c[1][k] + 2 * c[2][k] * u[i]; } s << n << " points of a " << (line ? "line" : "parabola"); auto D = gbs::build_3pt_tg_vec(p, u); auto T = gbs::build_3pt_tg_dir(p, u); REQUIRE(D.size() == n && T.size() == n);
    for (size_t i = 0; i < n; i++) { REQUIRE_MSG(dist(D[i], d[i]) < 1e-10 * 4000, "derivative " << i << " of a parabola: " << show(D[i]) << " instead of " << show(d[i])); REQUIRE_MSG(std::abs(gbs::norm(T[i]) - 1) < 1e-12, "direction " << i << " is not a unit vector"); if (line) REQUIRE_MSG(dist(T[i], gbs::normalized(c[1])) < 1e-9, "direction " << i << " along a line"); } s.nontrivial();
}
PBT_ARM(blended, 300, 9000)
{
    size_t n = s.in(2, 20), off = s.draw(3); auto r = s.bulk(); std::vector<P<2>> v(n); std::vector<double> b(n - 1); for (auto &x : v) x = {r.range(-3, 3), r.range(-3, 3)}; for (auto &x : b) x = r.range(0, 1); const double mark = 12345; std::vector<P<2>> o(n - 1 + 2 * off + 1, P<2>{mark, mark}); gbs::blend(v, b, o, v.begin(), v.end() - 1, b.begin(), o.begin() + off); s << n; for (size_t i = 0; i + 1 < n; i++) for (int k = 0; k < 2; k++) REQUIRE(std::abs(o[i + off][k] - (1 - b[i]) * v[i][k] - b[i] * v[i + 1][k]) < 1e-14); for (size_t i = 0; i < o.size(); i++) if (i < off || i >= off + n - 1) REQUIRE_MSG(o[i][0] == mark, "writes out of the range"); std::vector<P<2>> z(v); for (auto &x : z) if (gbs::norm(x) < 0.1) x[0] += 1; auto z0 = z; gbs::adim(z); for (size_t i = 0; i < n; i++) REQUIRE_MSG(dist(z[i], gbs::normalized(z0[i])) < 1e-14, "vector " << i << " not normalised"); s.nontrivial();
}
