#include "gen.h"
#include "shapes.h"
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
const char *pbt_property = "P11";
const char *pbt_rule = "random B-spline curves and surfaces moved to 1..4 point / derivative constraints, with free or fixed bounds; oracle: quad-precision evaluation of the moved poles at the constraints, poles outside the supports (and the boundary when fixed) unchanged, displacement of least norm (it lies in the span of the constraint rows), in-place and copying variants identical; non-trivial: the shape has poles outside the support, or several constraints";

template <size_t N> static void curve_case(Src &s)
{
    auto a = gcrv<N, false>(s, 1, 5, 6); auto c = a.make(); size_t n = a.P.size(), p = a.K.p; bool fix = s.chance(1, 3); DISCARD_IF(fix && n < 4);
    int m = s.in(1, 4); bool single = m == 1; std::vector<double> us; std::vector<size_t> ds; std::vector<std::array<double, N>> T; double w = a.K.hi() - a.K.lo();
    double u0 = 0;
    for (int i = 0; i < m; i++)
    {
        double f = fix ? 0.1 + 0.8 * (i + s.unit()) / m : m == 1 ? s.unit() : (i + 0.8 * s.unit()) / m; size_t d = 0;
        if (i && s.chance(1, 3) && ds.back() + 1 <= std::min<size_t>(p, 2)) { us.push_back(us.back()); d = ds.back() + 1; }
        else { us.push_back(m == 1 && !fix && s.chance(1, 4) ? (s.chance(1, 2) ? a.K.lo() : a.K.hi()) : a.K.lo() + f * w); d = p > 1 && s.chance(1, 5) ? 1 : 0; }
        ds.push_back(d); auto x = a.val(us.back(), d); for (auto &y : x) y += s.sym(3) * (d ? p / w : 1); T.push_back(x);
    }
    if (m > 1 && s.chance(1, 2)) for (int i = m - 1; i > 0; i--) { int j = s.in(0, i); std::swap(us[i], us[j]); std::swap(ds[i], ds[j]); std::swap(T[i], T[j]); } // in any order
    s << "p=" << p << " knots=" << show(a.K.flat) << " fix_bounds=" << fix << " constraints at " << show(us) << " orders " << show(ds);
    std::vector<gbs::bsc_constraint<double, N>> Q; for (int i = 0; i < m; i++) Q.push_back({us[i], T[i], ds[i]});
    // poles which may move
    size_t i1 = n - 1, i2 = 0; for (auto u : us) { size_t k = p; while (k + 1 < n && a.K.flat[k + 1] <= u) k++; i1 = std::min(i1, k - p); i2 = std::max(i2, k); }
    if (fix) { i1 = std::max<size_t>(i1, 1); i2 = std::min(i2, n - 2); DISCARD_IF(i1 > i2); }
    size_t nf = i2 - i1 + 1; DISCARD_IF(size_t(m) > nf);
    // rows of the constraints on the free poles (quad), their Gram matrix decides feasibility
    std::vector<std::vector<double>> B(m, std::vector<double>(n, 0.));
    for (int r = 0; r < m; r++) { auto b = ref::basis_ders(a.K.flat, p, us[r], ds[r]); for (size_t i = i1; i <= i2; i++) if (i + p >= b.i && i <= b.i) B[r][i] = double(b.D[ds[r]][i + p - b.i]); }
    for (int r = 0; r < m; r++) { double nr = 0; for (auto x : B[r]) nr += x * x; DISCARD_IF(nr < 1e-6); }
    Crv<N, false> R = a;
    bool pt = single && ds[0] == 0 && s.chance(1, 2), inplace = s.chance(1, 2);
    if (inplace) { auto e = c; if (pt && !fix && s.chance(1, 2)) gbs::move_to_point(e, T[0], us[0]); else if (pt) gbs::move_to_point(e, T[0], us[0], fix); else (!fix && s.chance(1, 2)) ? (void)gbs::move_to_constraints(e, Q) : (void)gbs::move_to_constraints(e, Q, fix); R.P = e.poles(); REQUIRE(e.degree() == p && e.knotsFlats() == a.K.flat); }
    else { bool def = !fix && s.chance(1, 2); auto e = pt ? (def ? gbs::moved_to_point(c, T[0], us[0]) : gbs::moved_to_point(c, T[0], us[0], fix)) : def ? gbs::moved_to_constraints(c, Q) : gbs::moved_to_constraints(c, Q, fix); R.P = e.poles(); REQUIRE(e.degree() == p && e.knotsFlats() == a.K.flat); }
    REQUIRE(c.poles() == a.P); // the copying variant leaves its argument alone
    REQUIRE(R.P.size() == n); double g = maxabs(R.P);
    // an ill-conditioned request (close parameters) is left out
    {
        std::vector<std::vector<double>> G(m, std::vector<double>(m)); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double x = 0, ni = 0, nj = 0; for (size_t k = 0; k < n; k++) { x += B[i][k] * B[j][k]; ni += B[i][k] * B[i][k]; nj += B[j][k] * B[j][k]; } G[i][j] = x / std::sqrt(ni * nj); }
        double minp = 1; for (int k = 0; k < m; k++) { minp = std::min(minp, G[k][k]); DISCARD_IF(G[k][k] < 1e-4); for (int i = k + 1; i < m; i++) for (int j = k + 1; j < m; j++) G[i][j] -= G[i][k] * G[k][j] / G[k][k]; }
    }
    for (int r = 0; r < m; r++) near<N>(R.val(us[r], ds[r]), T[r], 1e-7 * (a.scale() + g) * std::pow(2. * p / a.K.minspan(), double(ds[r])), "constraint not met", us[r]);
    for (size_t i = 0; i < n; i++) if (i < i1 || i > i2) REQUIRE_MSG(R.P[i] == a.P[i], "pole " << i << " outside the support moved");
    if (fix) REQUIRE(R.P.front() == a.P.front() && R.P.back() == a.P.back());
    // least norm: the displacement is orthogonal to every change which keeps the constraints
    for (size_t c = 0; c < N; c++)
    {
        std::vector<double> d(n); double dn = 0; for (size_t i = 0; i < n; i++) { d[i] = R.P[i][c] - a.P[i][c]; dn = std::max(dn, std::abs(d[i])); }
        std::vector<std::vector<double>> E; // orthonormal basis of the rows
        for (auto b : B) { for (int t = 0; t < 2; t++) for (auto &e : E) { double x = 0; for (size_t k = 0; k < n; k++) x += b[k] * e[k]; for (size_t k = 0; k < n; k++) b[k] -= x * e[k]; } double x = 0; for (auto y : b) x += y * y; for (auto &y : b) y /= std::sqrt(x); E.push_back(b); }
        for (auto &e : E) { double x = 0; for (size_t k = 0; k < n; k++) x += d[k] * e[k]; for (size_t k = 0; k < n; k++) d[k] -= x * e[k]; }
        for (size_t k = 0; k < n; k++) REQUIRE_MSG(std::abs(d[k]) <= 1e-6 * (dn + 1e-3 * a.scale()), "not the least displacement: pole " << k << " off by " << d[k]);
    }
    s.nontrivial(m > 1 || nf < n);
}
PBT_ARM(curve_d2, 2500, 60000) { curve_case<2>(s); }
PBT_ARM(curve_d3, 2500, 60000) { curve_case<3>(s); }
PBT_ARM(surface, 2500, 60000)
{
    auto A = gsrf<false>(s, 1, 4); auto S = A.make(); size_t nu = A.U.n(), nv = A.V.n(), p = A.U.p, q = A.V.p; bool fix = s.chance(1, 3); DISCARD_IF(fix && (nu < 4 || nv < 4));
    int m = s.in(1, 4); struct C { double u, v; size_t du, dv; std::array<double, 3> x; }; std::vector<C> T;
    for (int i = 0; i < m; i++) { C c; double e = fix ? 0.15 : 0; c.u = e + (1 - 2 * e) * s.unit(); c.v = e + (1 - 2 * e) * s.unit(); c.du = p > 1 && s.chance(1, 4) ? 1 : 0; c.dv = q > 1 && s.chance(1, 4) ? 1 : 0; if (i && s.chance(1, 4)) { c.u = T.back().u; c.v = T.back().v; c.du = 1; } c.x = A.val(c.u, c.v, c.du, c.dv); for (auto &y : c.x) y += s.sym(3) * (c.du || c.dv ? 3 : 1); T.push_back(c); }
    s << "p=" << p << " q=" << q << " ku=" << show(A.U.flat) << " kv=" << show(A.V.flat) << " fix=" << fix; for (auto &c : T) s << " (" << c.u << "," << c.v << " order " << c.du << "," << c.dv << ")";
    size_t i1 = nu - 1, i2 = 0, j1 = nv - 1, j2 = 0; auto span = [](const Knots<double> &K, double u) { size_t k = K.p; while (k + 1 < K.n() && K.flat[k + 1] <= u) k++; return k; };
    for (auto &c : T) { size_t k = span(A.U, c.u), l = span(A.V, c.v); i1 = std::min(i1, k - p); i2 = std::max(i2, k); j1 = std::min(j1, l - q); j2 = std::max(j2, l); }
    if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(i2, nu - 2); j1 = std::max<size_t>(1, j1); j2 = std::min(j2, nv - 2); DISCARD_IF(i1 > i2 || j1 > j2); }
    DISCARD_IF(size_t(m) > (i2 - i1 + 1) * (j2 - j1 + 1));
    size_t n = nu * nv; std::vector<std::vector<double>> B(m, std::vector<double>(n, 0.));
    for (int r = 0; r < m; r++) { auto bu = ref::basis_ders(A.U.flat, p, T[r].u, T[r].du), bv = ref::basis_ders(A.V.flat, q, T[r].v, T[r].dv); double x = 0; for (size_t j = j1; j <= j2; j++) for (size_t i = i1; i <= i2; i++) { double y = i + p >= bu.i && i <= bu.i && j + q >= bv.i && j <= bv.i ? double(bu.D[T[r].du][i + p - bu.i] * bv.D[T[r].dv][j + q - bv.i]) : 0.; B[r][i + nu * j] = y; x += y * y; } DISCARD_IF(x < 1e-6); }
    std::vector<std::vector<double>> E; for (auto b : B) { double n0 = 0; for (auto y : b) n0 += y * y; for (int t = 0; t < 2; t++) for (auto &e : E) { double x = 0; for (size_t k = 0; k < n; k++) x += b[k] * e[k]; for (size_t k = 0; k < n; k++) b[k] -= x * e[k]; } double x = 0; for (auto y : b) x += y * y; DISCARD_IF(x < 1e-4 * n0); for (auto &y : b) y /= std::sqrt(x); E.push_back(b); }
    bool pt = m == 1 && !T[0].du && !T[0].dv && s.chance(1, 2); std::vector<gbs::bss_constraint<double, 3>> Q; for (auto &c : T) Q.push_back({c.u, c.v, c.x, c.du, c.dv});
    Srf<false> R = A;
    if (pt && s.chance(1, 2)) { auto e = S; if (!fix && s.chance(1, 2)) gbs::move_to_point(e, T[0].x, T[0].u, T[0].v); else gbs::move_to_point(e, T[0].x, T[0].u, T[0].v, fix); R.P = e.poles(); } else if (!fix && s.chance(1, 2)) R.P = (pt ? gbs::moved_to_point(S, T[0].x, T[0].u, T[0].v) : gbs::moved_to_constraints(S, Q)).poles(); else R.P = (pt ? gbs::moved_to_point(S, T[0].x, T[0].u, T[0].v, fix) : gbs::moved_to_constraints(S, Q, fix)).poles();
    REQUIRE(R.P.size() == n); double g = maxabs(R.P), h = std::min(A.U.minspan(), A.V.minspan());
    for (auto &c : T) near<3>(R.val(c.u, c.v, c.du, c.dv), c.x, 1e-7 * (A.scale() + g) * std::pow(8 / h, double(c.du + c.dv)), "constraint not met", c.u);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) if (i < i1 || i > i2 || j < j1 || j > j2) REQUIRE_MSG(R.P[i + nu * j] == A.P[i + nu * j], "pole " << i << "," << j << " outside the support moved");
    for (size_t c = 0; c < 3; c++)
    {
        std::vector<double> d(n); double dn = 0; for (size_t i = 0; i < n; i++) { d[i] = R.P[i][c] - A.P[i][c]; dn = std::max(dn, std::abs(d[i])); }
        for (auto &e : E) { double x = 0; for (size_t k = 0; k < n; k++) x += d[k] * e[k]; for (size_t k = 0; k < n; k++) d[k] -= x * e[k]; }
        for (size_t k = 0; k < n; k++) REQUIRE_MSG(std::abs(d[k]) <= 1e-6 * (dn + 1e-3 * A.scale()), "not the least displacement: pole " << k << " off by " << d[k]);
    }
    s.nontrivial(m > 1 || (i2 - i1 + 1) * (j2 - j1 + 1) < n);
}
// more constraints than poles: what is left is the least possible, pole by pole of a chosen range
static void least(const std::vector<std::vector<double>> &B, const std::vector<double> &want, const std::vector<double> &d, double scale)
{
    size_t m = B.size(), n = B[0].size(); std::vector<double> r(m); for (size_t i = 0; i < m; i++) { r[i] = want[i]; for (size_t k = 0; k < n; k++) r[i] -= B[i][k] * d[k]; }
    for (size_t k = 0; k < n; k++) { double g = 0; for (size_t i = 0; i < m; i++) g += B[i][k] * r[i]; REQUIRE_MSG(std::abs(g) <= 1e-6 * scale, "pole " << k << " of the range is not where the residual is least (gradient " << g << ")"); }
}
static bool independent(const std::vector<std::vector<double>> &B)
{
    size_t m = B.size(), n = B[0].size(); std::vector<std::vector<double>> G(n, std::vector<double>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t r = 0; r < m; r++) G[i][j] += B[r][i] * B[r][j];
    for (size_t k = 0; k < n; k++) { if (G[k][k] < 1e-4) return false; for (size_t i = k + 1; i < n; i++) for (size_t j = k + 1; j < n; j++) G[i][j] -= G[i][k] * G[k][j] / G[k][k]; } return true;
}
PBT_ARM(curve_fit, 1500, 40000)
{
    auto a = gcrv<3, false>(s, 1, 4, 4); auto c = a.make(); size_t n = a.P.size(), p = a.K.p, i1 = s.in(0, int(n) - 1), i2 = s.in(int(i1), std::min(int(i1) + 4, int(n) - 1)), nf = i2 - i1 + 1, m = nf + s.in(0, 5); double w = a.K.hi() - a.K.lo();
    std::vector<gbs::bsc_constraint<double, 3>> Q; auto r = s.bulk(); std::vector<double> us; for (size_t i = 0; i < m; i++) { double u = a.K.lo() + w * (i + 0.9 * r.range(0, 1)) / m; us.push_back(u); Q.push_back({u, {r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)}, 0}); }
    s << "p=" << p << " knots=" << show(a.K.flat) << " poles " << i1 << ".." << i2 << " at " << show(us); std::vector<std::vector<double>> B(m, std::vector<double>(nf)); for (size_t q = 0; q < m; q++) { auto b = ref::basis_ders(a.K.flat, p, us[q], 0); for (size_t i = i1; i <= i2; i++) if (i + p >= b.i && i <= b.i) B[q][i - i1] = double(b.D[0][i + p - b.i]); } DISCARD_IF(!independent(B));
    auto e = gbs::moved_to_constraints_delta(c, Q, i1, i2); REQUIRE(e.poles().size() == n && e.degree() == p && e.knotsFlats() == a.K.flat && c.poles() == a.P); auto P = a.P; gbs::points_vector<double, 3> raw(P.begin(), P.end()); gbs::move_to_constraints_delta(raw, Q, a.K.flat, p, i1, i2); for (size_t i = 0; i < n; i++) REQUIRE(raw[i] == e.poles()[i]);
    for (size_t i = 0; i < n; i++) if (i < i1 || i > i2) REQUIRE_MSG(e.poles()[i] == a.P[i], "pole " << i << " out of the range moved");
    for (size_t k = 0; k < 3; k++) { std::vector<double> d, want; for (size_t i = i1; i <= i2; i++) d.push_back(e.poles()[i][k] - a.P[i][k]); for (auto &q : Q) want.push_back(std::get<1>(q)[k]); least(B, want, d, 1 + a.scale() * 1e-4 + maxabs(e.poles()) * 1e-3); } s.nontrivial(m > nf); s.label(m > nf ? "too many constraints" : "as many as poles");
}
PBT_ARM(surface_fit, 1000, 30000)
{
    auto A = gsrf<false>(s, 1, 3); auto S = A.make(); size_t nu = A.U.n(), nv = A.V.n(), p = A.U.p, q = A.V.p, i1 = s.in(0, int(nu) - 1), i2 = s.in(int(i1), std::min(int(i1) + 2, int(nu) - 1)), j1 = s.in(0, int(nv) - 1), j2 = s.in(int(j1), std::min(int(j1) + 2, int(nv) - 1)), ni = i2 - i1 + 1, nj = j2 - j1 + 1, n = ni * nj, m = n + s.in(0, 8);
    std::vector<gbs::bss_constraint<double, 3>> Q; auto r = s.bulk(); double ulo = A.U.flat[i1], uhi = A.U.flat[i2 + p + 1], vlo = A.V.flat[j1], vhi = A.V.flat[j2 + q + 1]; std::vector<std::vector<double>> B(m, std::vector<double>(n)); for (size_t k = 0; k < m; k++) { double u = r.range(ulo, uhi), v = r.range(vlo, vhi); Q.push_back({u, v, {r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)}, 0, 0}); auto bu = ref::basis_ders(A.U.flat, p, u, 0), bv = ref::basis_ders(A.V.flat, q, v, 0); for (size_t j = j1; j <= j2; j++) for (size_t i = i1; i <= i2; i++) if (i + p >= bu.i && i <= bu.i && j + q >= bv.i && j <= bv.i) B[k][i - i1 + ni * (j - j1)] = double(bu.D[0][i + p - bu.i] * bv.D[0][j + q - bv.i]); }
    s << "p=" << p << " q=" << q << " ku=" << show(A.U.flat) << " kv=" << show(A.V.flat) << " poles " << i1 << ".." << i2 << ", " << j1 << ".." << j2 << ", " << m << " constraints"; DISCARD_IF(!independent(B)); auto e = gbs::moved_to_constraints_delta(S, Q, i1, i2, j1, j2); REQUIRE(e.poles().size() == nu * nv);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) if (i < i1 || i > i2 || j < j1 || j > j2) REQUIRE_MSG(e.poles()[i + nu * j] == A.P[i + nu * j], "pole " << i << "," << j << " out of the range moved");
    for (size_t k = 0; k < 3; k++) { std::vector<double> d, want; for (size_t j = j1; j <= j2; j++) for (size_t i = i1; i <= i2; i++) d.push_back(e.poles()[i + nu * j][k] - A.P[i + nu * j][k]); for (auto &x : Q) want.push_back(std::get<2>(x)[k]); least(B, want, d, 1 + A.scale() * 1e-4 + maxabs(e.poles()) * 1e-3); } s.nontrivial(m > n && n > 1); s.label(m > n ? "too many constraints" : "as many as poles");
}
