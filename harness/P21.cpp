// Structured meshes: blending functions, sizes of edges, meshes of curve sets, transfinite interpolation, smoothing.
#include "gen.h"
#include "shapes.h"
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/smoothing.h>
#include <gbs-mesh/mshedge.h>
using namespace gen;
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/;
const char *pbt_property = "P21";
const char *pbt_rule = "random surfaces, lattices of isoparametric curves and hard parameters on any domain, numbers of points, blending orders; oracle: own Hermite blends, arc lengths by quadrature, the transfinite formula, equations of the smoother; non-trivial: more than two hard lines in a direction, or a domain other than the unit one, or a rational or curved lattice";
template <size_t N> using CP = std::shared_ptr<gbs::Curve<double, N>>;
template <size_t N> using PT = std::array<double, N>;
static std::vector<double> hard(Src &s, double a, double b, int n) { std::vector<double> u(n); std::vector<double> w(n - 1); double t = 0; for (auto &x : w) t += x = .3 + s.unit(); double c = 0; for (int i = 0; i < n; i++) { u[i] = i + 1 == n ? b : a + (b - a) * (c / t); if (i + 1 < n) c += w[i]; } return u; }
// piecewise Hermite basis of degree 2c-1: function i, order n, at x
static double hermite(const std::vector<double> &k, size_t c, size_t i, size_t n, double x)
{
    size_t e = 0; while (e + 2 < k.size() && x > k[e + 1]) e++; if (i != e && i != e + 1) return 0; double h = k[e + 1] - k[e], t = (x - k[e]) / h; bool right = i == e + 1; if (right) t = 1 - t; // values at the right end mirror those at the left
    double y = 0;
    if (c == 1) y = 1 - t; else if (c == 2) y = n == 0 ? 1 + t * t * (2 * t - 3) : t * (1 - t) * (1 - t) * h; else { double u = 1 - t; y = n == 0 ? u * u * u * (1 + 3 * t + 6 * t * t) : n == 1 ? t * u * u * u * (1 + 3 * t) * h : .5 * t * t * u * u * u * h * h; } if (right && n == 1) y = -y; return y;
}
template <size_t P, bool SC> static void blend(Src &s, const std::vector<double> &k)
{
    auto al = gbs::build_tfi_blend_function_with_derivatives<double, P, SC>(k); REQUIRE(al.size() == k.size()); double hm = 1e300; for (size_t i = 1; i < k.size(); i++) hm = std::min(hm, k[i] - k[i - 1]); for (int q = 0; q < 12; q++) { double x = q < 2 * int(k.size()) && s.chance(1, 3) ? k[s.draw(k.size())] : k.front() + (k.back() - k.front()) * s.unit(); double sum = 0; for (size_t i = 0; i < k.size(); i++) for (size_t n = 0; n < P; n++) { double y = al[i][n](x), r = hermite(k, P + SC, i, n, x); REQUIRE_MSG(std::abs(y - r) < 1e-8, "blending function " << i << " order " << n << " at " << x << ": " << y << " instead of " << r); if (n == 0) sum += y; } REQUIRE_MSG(std::abs(sum - 1) < 1e-8, "blending functions do not sum to one"); }
    for (size_t j = 0; j < k.size(); j++) for (size_t i = 0; i < k.size(); i++) for (size_t n = 0; n < P; n++) for (size_t d = 0; d < P + SC; d++) { if (d && P + SC == 1) continue; double y = al[i][n](k[j], d), r = i == j && n == d; REQUIRE_MSG(std::abs(y - r) < 1e-7 / std::pow(std::min(1., hm), double(d)), "derivative " << d << " of blending function " << i << " order " << n << " at " << k[j] << " is " << y); }
}
PBT_ARM(blends, 300, 9000)
{
    int n = s.in(2, 5); double a = s.chance(1, 2) ? 0 : s.sym(4), L = s.chance(1, 2) ? 1 : s.real(.3, 5); auto k = hard(s, a, a + L, n); int kind = s.draw(5); s << show(k) << " kind " << kind;
    if (kind == 0) blend<1, false>(s, k); else if (kind == 1) blend<1, true>(s, k); else if (kind == 2) blend<2, false>(s, k); else if (kind == 3) blend<2, true>(s, k);
    else { bool sc = s.chance(1, 2); auto al = gbs::build_tfi_blend_function<double>(k, sc); REQUIRE(al.size() == k.size()); auto a2 = gbs::build_tfi_blend_function_with_derivatives<double, 2>(k); REQUIRE(a2.size() == k.size()); for (size_t i = 0; i < k.size(); i++) for (size_t j = 0; j < k.size(); j++) REQUIRE_MSG(std::abs(al[i](k[j]) - (i == j)) < 1e-8, "blending function " << i << " at " << k[j]); for (int q = 0; q < 6; q++) { double x = k.front() + (k.back() - k.front()) * s.unit(), t = 0; for (size_t i = 0; i < k.size(); i++) t += al[i](x); REQUIRE(std::abs(t - 1) < 1e-8); if (sc || n == 2) for (size_t i = 0; i < k.size(); i++) REQUIRE_MSG(std::abs(al[i](x) - hermite(k, sc ? 2 : 1, i, 0, x)) < 1e-8, "blending function"); } }
    s.nontrivial(n > 2 || a != 0 || L != 1); s.label(kind < 4 ? "orders" : "values");
}
// isoparametric curve of a surface, with the parameter of the surface
template <typename Sf> static CP<3> iso(const std::shared_ptr<Sf> &p, bool u, double c, double a, double b) { auto uv = std::make_shared<gbs::BSCurve<double, 2>>(std::vector<PT<2>>{u ? PT<2>{c, a} : PT<2>{a, c}, u ? PT<2>{c, b} : PT<2>{b, c}}, std::vector<double>{a, a, b, b}, 1); return std::make_shared<gbs::CurveOnSurface<double, 3>>(uv, p); }
template <size_t N> static double alen(const gbs::Curve<double, N> &c, double a, double b) { static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881}; double L = 0; int n = 24; for (int k = 0; k < n; k++) { double p = a + (b - a) * k / n, q = a + (b - a) * (k + 1) / n, m = (p + q) / 2, h = (q - p) / 2; for (int i = 0; i < 5; i++) L += h * w[i] * (mag(c.value(m - h * x[i], 1)) + mag(c.value(m + h * x[i], 1))); } return L; }
struct Lattice { std::vector<CP<3>> ksi, eth; std::vector<double> ki, ej; std::shared_ptr<gbs::Surface<double, 3>> srf; bool plain; };
template <bool rat> static Lattice lattice(Src &s, bool unit)
{
    auto g = gsrf<rat>(s, 1, 3, unit, 1); DISCARD_IF((g.U.p == 1 && g.U.brk.size() > 2) || (g.V.p == 1 && g.V.brk.size() > 2)); /* lengths along kinked curves are refused at times */ using S = typename Srf<rat>::S; auto p = std::make_shared<S>(g.make()); auto [u1, u2, v1, v2] = p->bounds(); if (s.chance(1, 3)) { double d = u2 - u1; u1 += .2 * d * s.unit(); u2 -= .2 * d * s.unit(); d = v2 - v1; v1 += .2 * d * s.unit(); v2 -= .2 * d * s.unit(); } Lattice l; l.srf = p; l.ki = hard(s, u1, u2, s.in(2, 4)); l.ej = hard(s, v1, v2, s.in(2, 4)); for (auto k : l.ki) l.ksi.push_back(iso(p, true, k, v1, v2)); for (auto e : l.ej) l.eth.push_back(iso(p, false, e, u1, u2)); l.plain = unit && l.ki.size() == 2 && l.ej.size() == 2; for (auto *v : {&l.ksi, &l.eth}) for (auto &c : *v) { auto [a, b] = c->bounds(); double lo = 1e300, hi = 0; for (int i = 0; i <= 60; i++) { double x = mag(c->value(a + (b - a) * i / 60, 1)); lo = std::min(lo, x); hi = std::max(hi, x); } DISCARD_IF(hi > 6 * lo); } s << (rat ? "rational " : "") << showp(g.P, 6) << g.U.p << g.V.p << " knots " << show(g.U.flat) << show(g.V.flat) << " lines " << show(l.ki) << show(l.ej); return l;
}
static std::vector<size_t> sizes(Src &s, const std::vector<CP<3>> &c, const std::vector<std::vector<double>> &u, double dm, bool &edge) { (void)s; std::vector<size_t> r; edge = false; for (size_t i = 0; i + 1 < u[0].size(); i++) { double l = 0; for (size_t k = 0; k < c.size(); k++) l += alen<3>(*c[k], u[k][i], u[k][i + 1]); l /= c.size() * dm; edge |= std::abs(l - std::floor(l) - .5) < 1e-3 * (1 + l); r.push_back(std::max<size_t>(1, std::lround(l)) + 1); } return r; }
template <bool rat> static void sets(Src &s)
{
    auto L = lattice<rat>(s, s.chance(1, 2)); bool ku = s.chance(1, 2); auto &c = ku ? L.ksi : L.eth; auto &h = ku ? L.ej : L.ki; std::vector<std::vector<double>> hh(c.size(), h); bool many = s.chance(1, 2); if (many) for (auto &x : hh) x = hard(s, h.front(), h.back(), h.size()); size_t n = s.in(2, 30); double tot = 0; for (auto &x : c) tot += alen<3>(*x, x->bounds()[0], x->bounds()[1]); tot /= c.size(); bool by_n = s.chance(1, 2), edge; double dm = by_n ? tot / (n - 1) : s.real(.05, 1.5) * tot; s << (ku ? " along v" : " along u") << (many ? " own lines " : " ") << (by_n ? "n=" : "step ") << (by_n ? double(n) : dm); auto want = sizes(s, c, hh, dm, edge);
    auto got = by_n ? (many ? gbs::msh_curves_set_sizes<double, 3>(c, hh, n) : gbs::msh_curves_set_sizes<double, 3>(c, h, n)) : many ? gbs::msh_curves_set_sizes<double, 3>(c, hh, dm) : gbs::msh_curves_set_sizes<double, 3>(c, h, dm); REQUIRE(got.size() == want.size()); if (!edge) REQUIRE_MSG(got == want, "sizes " << show(got) << " instead of " << show(want)); for (auto x : got) REQUIRE_MSG(x >= 2, "section with " << x << " points");
    auto X = many ? gbs::msh_curves_set<double, 3, 2>(c, got, hh) : gbs::msh_curves_set<double, 3, 2>(c, got, h); size_t m = 1; for (auto x : got) m += x - 1; REQUIRE_MSG(X.size() == m, X.size() << " points along instead of " << m);
    for (size_t k = 0; k < c.size(); k++) { size_t at = 0; for (size_t i = 0; i + 1 < h.size(); i++) { double a = hh[k][i], b = hh[k][i + 1]; auto us = gbs::uniform_distrib_params(*c[k], a, b, got[i]); size_t j = at; for (auto u : us) { REQUIRE(X[j].size() == c.size()); REQUIRE_MSG(dist(X[j][k][0], c[k]->value(u)) < 1e-9 * (1 + tot) && dist(X[j][k][1], c[k]->value(u, 1)) < 1e-6 * (1 + mag(c[k]->value(u, 1))), "point " << j << " of curve " << k); j++; } at += got[i] - 1; REQUIRE_MSG(dist(X[at][k][0], c[k]->value(b)) < 1e-9 * (1 + tot), "hard point missed"); } REQUIRE(dist(X[0][k][0], c[k]->value(h.front())) < 1e-9 * (1 + tot) || many); }
    if (s.chance(1, 4)) { auto bad = got; bad.push_back(3); try { gbs::msh_curves_set<double, 3, 1>(c, bad, h); REQUIRE(!"sizes of other sections accepted"); } catch (std::out_of_range &) { } auto hb = hh; hb[0].push_back(h.back()); try { gbs::msh_curves_set_sizes<double, 3>(c, hb, dm); REQUIRE_MSG(c.size() < 2, "different numbers of hard points accepted"); } catch (std::invalid_argument &) { } auto c2 = c; c2.push_back(std::make_shared<gbs::BSCurve<double, 3>>(std::vector<PT<3>>{{0, 0, 0}, {1, 0, 0}}, std::vector<double>{h.front(), h.front(), h.back() + 1, h.back() + 1}, 1)); try { gbs::msh_curves_set<double, 3, 1>(c2, got, h); REQUIRE(!"curves with other bounds accepted"); } catch (std::invalid_argument &) { } }
    s.nontrivial(!L.plain || many); s.label(many ? "own lines" : "shared lines");
}
PBT_ARM(curve_sets, 200, 5000) { sets<false>(s); }
PBT_ARM(curve_sets_rational, 120, 3000) { sets<true>(s); }
static size_t total(const std::vector<size_t> &n) { size_t t = 1; for (auto x : n) t += x - 1; return t; }
// the nodes of transfinite interpolation with values only
template <bool SC> static void expect_tfi(const std::vector<PT<3>> &pts, const std::vector<CP<3>> &ksi, const std::vector<CP<3>> &eth, const std::vector<std::vector<double>> &ki, const std::vector<std::vector<double>> &ej, const std::vector<size_t> &nk, const std::vector<size_t> &ne, const std::vector<double> &bk, const std::vector<double> &be, double tol, size_t P)
{
    size_t nj = total(nk), ni = total(ne), L = ksi.size(), M = eth.size(); REQUIRE_MSG(pts.size() == ni * nj, pts.size() << " nodes instead of " << ni << "x" << nj); auto params = [](const std::vector<CP<3>> &c, const std::vector<std::vector<double>> &h, const std::vector<size_t> &n) { std::vector<std::vector<double>> r; for (size_t k = 0; k < c.size(); k++) { std::vector<double> p; for (size_t i = 0; i < n.size(); i++) { auto u = gbs::uniform_distrib_params(*c[k], h[k][i], h[k][i + 1], n[i]); if (i) p.pop_back(); p.insert(p.end(), u.begin(), u.end()); } r.push_back(p); } return r; };
    auto pk = params(ksi, ej, nk), pe = params(eth, ki, ne); auto law = [](size_t i, const std::vector<size_t> &n, const std::vector<double> &b) { size_t at = 0; for (size_t k = 0; k < n.size(); k++) { if (i <= at + n[k] - 1) return b[k] + (b[k + 1] - b[k]) * double(i - at) / (n[k] - 1.); at += n[k] - 1; } return b.back(); };
    size_t hi = 0; for (size_t i = 0; i < ni; i++) { double x = law(i, ne, bk); bool on_k = std::abs(x - bk[hi]) < 1e-12; size_t hj = 0; for (size_t j = 0; j < nj; j++) { double y = law(j, nk, be); bool on_e = std::abs(y - be[hj]) < 1e-12; auto &p = pts[j + nj * i]; if (on_k) REQUIRE_MSG(dist(p, ksi[hi]->value(pk[hi][j])) < tol, "node " << i << "," << j << " off the curve it belongs to by " << dist(p, ksi[hi]->value(pk[hi][j]))); if (on_e) REQUIRE_MSG(dist(p, eth[hj]->value(pe[hj][i])) < tol, "node " << i << "," << j << " off the curve it belongs to by " << dist(p, eth[hj]->value(pe[hj][i])));
            if (P == 1) { PT<3> r{}; for (size_t a = 0; a < L; a++) r = r + hermite(bk, 1 + SC, a, 0, x) * ksi[a]->value(pk[a][j]); for (size_t b = 0; b < M; b++) r = r + hermite(be, 1 + SC, b, 0, y) * eth[b]->value(pe[b][i]); for (size_t a = 0; a < L; a++) for (size_t b = 0; b < M; b++) r = r - hermite(bk, 1 + SC, a, 0, x) * hermite(be, 1 + SC, b, 0, y) * ksi[a]->value(ej[a][b]); REQUIRE_MSG(dist(p, r) < tol, "node " << i << "," << j << " at " << show(p) << " instead of " << show(r)); } if (on_e && hj + 1 < M) hj++; } if (on_k && hi + 1 < L) hi++; }
}
template <bool rat, size_t P, bool SC> static void tfi_surf(Src &s)
{
    auto L = lattice<rat>(s, s.chance(1, 2)); size_t nk = s.in(2, 14), ne = s.in(2, 14); int how = s.draw(3); s << " order " << P << " slope " << SC << " n=" << nk << "," << ne << " from " << (how == 0 ? "surface" : how == 1 ? "curves" : "curves and surface"); double sc = 0; for (auto &c : L.ksi) sc += alen<3>(*c, L.ej.front(), L.ej.back()); for (auto &c : L.eth) sc += alen<3>(*c, L.ki.front(), L.ki.back()); std::vector<std::vector<double>> ki(L.ej.size(), L.ki), ej(L.ki.size(), L.ej); bool ok = gbs::check_curve_lattice<double, 3>(L.ksi, L.eth, L.ki, L.ej, 1e-6 * sc); REQUIRE(ok);
    auto [pts, nj, ni, n_k, n_e] = how == 0 ? gbs::tfi_mesh_2d<double, 3, P, P, SC>(L.srf, L.ki, L.ej, nk, ne) : gbs::tfi_mesh_2d<double, 3, P, P, SC>(L.ksi, L.eth, L.ki, L.ej, nk, ne, how == 2 ? L.srf : nullptr); REQUIRE(n_k.size() + 1 == L.ej.size() && n_e.size() + 1 == L.ki.size()); REQUIRE_MSG(nj == total(n_k) && ni == total(n_e), "sizes"); expect_tfi<SC>(pts, L.ksi, L.eth, ki, ej, n_k, n_e, L.ki, L.ej, 1e-6 * sc, P); s.nontrivial(!L.plain || rat); s.label(how == 0 ? "surface" : "curves");
}
PBT_ARM(tfi, 150, 4000) { if (s.chance(1, 2)) tfi_surf<false, 1, false>(s); else tfi_surf<false, 1, true>(s); }
PBT_ARM(tfi_rational, 80, 2500) { if (s.chance(1, 2)) tfi_surf<true, 1, false>(s); else tfi_surf<true, 1, true>(s); }
// curves with their own parameters, in contact at given ones or at those which are searched
PBT_ARM(tfi_contacts, 120, 3000)
{
    int L = s.in(2, 4), M = s.in(2, 4); bool search = s.chance(1, 2), curved = s.chance(2, 3); std::vector<CP<3>> ksi, eth; std::vector<double> x = hard(s, 0, 6, L), y = hard(s, 0, 4, M); std::vector<std::vector<PT<3>>> nd(L, std::vector<PT<3>>(M)); for (int i = 0; i < L; i++) for (int j = 0; j < M; j++) nd[i][j] = {x[i] + s.sym(.15), y[j] + s.sym(.15), s.sym(.3)};
    std::vector<std::vector<double>> ki(M), ej(L); auto through = [&](const std::vector<PT<3>> &p, std::vector<double> &h) { double a = s.sym(2), l = s.real(.5, 3); h = hard(s, a, a + l, p.size()); for (size_t k = 1; k + 1 < p.size(); k++) h[k] = a + l * (dist(p[0], p[k])) / (dist(p[0], p.back())); h.back() = a + l; size_t d = curved && p.size() > 2 ? 2 : 1; auto c = gbs::interpolate<double, 3>(gbs::points_vector<double, 3>(p.begin(), p.end()), h, d); return std::make_shared<gbs::BSCurve<double, 3>>(c); };
    for (int i = 0; i < L; i++) { ksi.push_back(through(nd[i], ej[i])); } for (int j = 0; j < M; j++) { std::vector<PT<3>> r; for (int i = 0; i < L; i++) r.push_back(nd[i][j]); eth.push_back(through(r, ki[j])); } for (auto &h : ki) DISCARD_IF(!std::is_sorted(h.begin(), h.end())); for (auto &h : ej) DISCARD_IF(!std::is_sorted(h.begin(), h.end()));
    size_t nk = s.in(2, 12), ne = s.in(2, 12); s << L << "x" << M << (curved ? " curved" : " straight") << " nodes " << showp(nd[0]) << " lines " << show(ki[0]) << show(ej[0]) << " n=" << nk << "," << ne << (search ? " searched" : ""); if (search) { auto [a, b] = gbs::lattice_intersections<double, 3>(ksi, eth, 1e-4); REQUIRE(a.size() == size_t(M) && b.size() == size_t(L)); for (int j = 0; j < M; j++) for (int i = 0; i < L; i++) REQUIRE_MSG(dist(eth[j]->value(a[j][i]), ksi[i]->value(b[i][j])) < 2e-4 && dist(eth[j]->value(a[j][i]), nd[i][j]) < 1e-2, "contact of curves " << i << "," << j); }
    auto bk = gbs::make_range<double>(0, 1, L), be = gbs::make_range<double>(0, 1, M); bool sc = s.chance(1, 2); if (search) { auto [pts, nj, ni, n_k, n_e] = gbs::tfi_mesh_2d<double, 3, 1, 1>(ksi, eth, nk, ne, 1e-4); REQUIRE(nj == total(n_k) && ni == total(n_e) && pts.size() == ni * nj); size_t a = 0; for (int i = 0; i < L; i++) { size_t b = 0; for (int j = 0; j < M; j++) { REQUIRE_MSG(dist(pts[b + nj * a], nd[i][j]) < 2e-2, "node at the contact of curves " << i << "," << j); if (j + 1 < M) b += n_k[j] - 1; } if (i + 1 < L) a += n_e[i] - 1; } }
    else if (sc) { auto [pts, nj, ni, n_k, n_e] = gbs::tfi_mesh_2d<double, 3, 1, 1, true>(ksi, eth, ki, ej, nk, ne); REQUIRE(nj == total(n_k) && ni == total(n_e)); expect_tfi<true>(pts, ksi, eth, ki, ej, n_k, n_e, bk, be, 1e-6, 1); } else { auto [pts, nj, ni, n_k, n_e] = gbs::tfi_mesh_2d<double, 3, 1, 1, false>(ksi, eth, ki, ej, nk, ne); REQUIRE(nj == total(n_k) && ni == total(n_e)); expect_tfi<false>(pts, ksi, eth, ki, ej, n_k, n_e, bk, be, 1e-6, 1); } s.nontrivial(L + M > 4); s.label(search ? "searched" : "given");
}
// the tables of a lattice: points and tangents of each curve at the crossings, wherever they are on that curve, and the same ones in the meshed curves at their hard points
template <size_t P, size_t Q> static void tables(Src &s)
{
    int L = s.in(2, 4), M = s.in(2, 4); auto pick = [&](int n, int m, std::vector<CP<3>> &c, std::vector<std::vector<double>> &h) { h.resize(n); for (int i = 0; i < n; i++) { auto k = gcrv<3, false>(s, 2, 3, 3); for (size_t q = 0; q < k.P.size(); q++) k.P[q] = {3. * q + .5 * std::tanh(k.P[q][0]), std::tanh(k.P[q][1]), std::tanh(k.P[q][2])}; c.push_back(std::make_shared<gbs::BSCurve<double, 3>>(k.make())); h[i] = hard(s, k.K.lo(), k.K.hi(), m); } };
    std::vector<CP<3>> ksi, eth; std::vector<std::vector<double>> ej, ki; pick(L, M, ksi, ej); pick(M, L, eth, ki); bool own = s.chance(2, 3);
    if (!own) { auto one = [&](std::vector<CP<3>> &c, std::vector<std::vector<double>> &h) { for (auto &x : c) { auto b = std::dynamic_pointer_cast<gbs::BSCurve<double, 3>>(x); b->changeBounds(0., 1.); } auto a = hard(s, 0, 1, h[0].size()); for (auto &x : h) x = a; }; one(ksi, ej); one(eth, ki); }
    std::vector<size_t> nk, ne; for (int j = 1; j < M; j++) nk.push_back(s.in(2, 6)); for (int i = 1; i < L; i++) ne.push_back(s.in(2, 6)); s << L << "x" << M << " orders " << P << "," << Q << (own ? " own lines " : " same lines ") << show(ki[0]) << show(ej[0]) << " sizes"; for (auto x : nk) s << " " << x; for (auto x : ne) s << " " << x;
    auto check = [&](const auto &r) { const auto &[A, B, C, fk, fe] = r; REQUIRE(A.size() == total(nk) && B.size() == total(ne) && C.size() == size_t(L)); auto same = [&](const PT<3> &a, const gbs::Curve<double, 3> &c, double u, size_t d, const char *what, int i, int j) { auto e = c.value(u, d); for (int k = 0; k < 3; k++) REQUIRE_MSG(std::abs(a[k] - e[k]) <= 1e-9 * (1 + mag(e)), what << " of order " << d << " at the crossing " << i << "," << j << ": " << show(a) << " instead of " << show(e)); };
        size_t a = 0; for (int i = 0; i < L; i++) { REQUIRE(C[i].size() == size_t(M)); size_t b = 0; for (int j = 0; j < M; j++) { for (size_t n = 0; n < P; n++) { same(C[i][j][n][0], *ksi[i], ej[i][j], n, "first family", i, j); same(A[b][i][n], *ksi[i], ej[i][j], n, "meshed curve of the first family", i, j); } for (size_t m = 1; m < Q; m++) same(C[i][j][0][m], *eth[j], ki[j][i], m, "second family", i, j); for (size_t m = 0; m < Q; m++) same(B[a][j][m], *eth[j], ki[j][i], m, "meshed curve of the second family", i, j); if (j + 1 < M) b += nk[j] - 1; } if (i + 1 < L) a += ne[i] - 1; } };
    if (own) check(gbs::msh_curves_lattice<double, 3, P, Q>(ksi, eth, ki, ej, nk, ne)); else check(gbs::msh_curves_lattice<double, 3, P, Q>(ksi, eth, ki[0], ej[0], nk, ne)); s.nontrivial(L + M > 4 || own); s.label(own ? "own lines" : "same lines");
}
PBT_ARM(tables, 300, 9000) { int k = s.draw(3); if (k == 0) tables<1, 1>(s); else if (k == 1) tables<2, 1>(s); else tables<1, 2>(s); }
PBT_ARM(lattice_check, 150, 4000)
{
    auto L = lattice<false>(s, s.chance(1, 2)); double gap = s.one_of({1e-5, 1e-3, .1}), tol = gap * s.one_of({.3, .9, 1.1, 4.}); PT<3> d{s.sym(1), s.sym(1), s.sym(1)}; double m = mag(d); DISCARD_IF(m < .1); d = d * (gap / m); bool k = s.chance(1, 2); auto &c = k ? L.ksi : L.eth; size_t i = s.draw(c.size()); auto [a, b] = c[i]->bounds(); auto &h = k ? L.ej : L.ki; gbs::points_vector<double, 3> p; for (auto x : h) p.push_back(c[i]->value(x)); size_t at = s.draw(p.size()); bool all = s.chance(1, 2); for (size_t q = 0; q < p.size(); q++) if (all || q == at) p[q] = p[q] + d; c[i] = std::make_shared<gbs::BSCurve<double, 3>>(gbs::interpolate<double, 3>(p, h, 1)); (void)a; (void)b; s << (k ? " curve ksi " : " curve eth ") << i << " moved by " << gap << " tolerance " << tol; bool r = gbs::check_curve_lattice<double, 3>(L.ksi, L.eth, L.ki, L.ej, tol); REQUIRE_MSG(r == (tol > gap), "lattice " << (r ? "accepted" : "refused")); s.nontrivial(); s.label(r ? "accepted" : "refused");
}
PBT_ARM(smoothing, 150, 4000)
{
    size_t ni = s.in(3, 9), nj = s.in(3, 9), i1 = 0, i2 = ni - 1, j1 = 0, j2 = nj - 1; if (s.chance(1, 3)) { i1 = s.draw(ni - 2); i2 = i1 + 2 + s.draw(ni - i1 - 2); j1 = s.draw(nj - 2); j2 = j1 + 2 + s.draw(nj - j1 - 2); } double jit = s.chance(1, 4) ? 0 : .3; gbs::points_vector<double, 2> X(ni * nj); double sh = s.sym(.5), bow = s.chance(1, 2) ? s.sym(.1) : 0; for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) X[j + nj * i] = {i + sh * j + jit * s.sym(1), j + bow * i * (double(i) - ni) + jit * s.sym(1)}; auto X0 = X; size_t nit = s.one_of<size_t>({1, 2, 5, 2000}); double tol = nit > 100 ? 1e-12 : 1e-4 * s.draw(2); s << ni << "x" << nj << " range " << i1 << "-" << i2 << "," << j1 << "-" << j2 << " jitter " << jit << " shear " << sh << " bow " << bow << " iterations " << nit;
    auto [it, err] = gbs::elliptic_structured_smoothing(X, nj, i1, i2, j1, j2, nit, tol); REQUIRE_MSG(it >= 1 && it <= nit && X.size() == X0.size(), "iterations"); REQUIRE_MSG(err <= tol || it == nit, "stopped early with change " << err); for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) if (i <= i1 || i >= i2 || j <= j1 || j >= j2) REQUIRE_MSG(X[j + nj * i] == X0[j + nj * i], "node " << i << "," << j << " outside the range moved");
    // one step of the Winslow equations from the previous mesh
    auto step = [&](const gbs::points_vector<double, 2> &A) { auto B = A; double dk = 1. / (ni - 1), de = 1. / (nj - 1); for (size_t i = i1 + 1; i < i2; i++) for (size_t j = j1 + 1; j < j2; j++) { auto at = [&](int a, int b) { return A[j + b + nj * (i + a)]; }; auto xk = (at(1, 0) - at(-1, 0)) / (2 * dk), xe = (at(0, 1) - at(0, -1)) / (2 * de); double a = xe[0] * xe[0] + xe[1] * xe[1], b = xk[0] * xe[0] + xk[1] * xe[1], c = xk[0] * xk[0] + xk[1] * xk[1]; B[j + nj * i] = ((at(1, 0) + at(-1, 0)) * (a / dk / dk) + (at(0, 1) + at(0, -1)) * (c / de / de) - (at(1, 1) - at(1, -1) + at(-1, -1) - at(-1, 1)) * (b / 2 / dk / de)) / (2 * (a / dk / dk + c / de / de)); } return B; };
    if (nit <= 5) { auto A = X0; for (size_t k = 0; k < it; k++) A = step(A); for (size_t k = 0; k < A.size(); k++) REQUIRE_MSG(dist(A[k], X[k]) < 1e-9, "node " << k << " at " << show(X[k]) << " instead of " << show(A[k])); } else if (err <= tol) { auto A = step(X); for (size_t k = 0; k < A.size(); k++) REQUIRE_MSG(dist(A[k], X[k]) < 1e-9, "residual at node " << k); if (jit == 0 && bow == 0) for (size_t k = 0; k < A.size(); k++) REQUIRE_MSG(dist(X[k], X0[k]) < 1e-9, "regular mesh moved"); }
    s.nontrivial(ni * nj > 12 && jit > 0); s.label(nit > 100 ? "converged" : "steps");
}
template <bool rat> static void edges(Src &s)
{
    auto c = gcrv<2, rat>(s, 2, 4, 1); for (size_t i = 0; i < c.P.size(); i++) { double w = rat ? c.P[i].back() : 1; if (rat) w = c.P[i].back() = .8 + .4 * (w / (1 + w)); c.P[i][0] = w * (2. * i + s.sym(.4)); c.P[i][1] = w * s.sym(2); } auto C = c.make(); using CC = decltype(C); std::shared_ptr<gbs::Curve<double, 2>> p = std::make_shared<CC>(C); auto [u1, u2] = C.bounds(); bool part = s.chance(1, 2); double a = u1, b = u2; if (part) { a = u1 + (u2 - u1) * .4 * s.unit(); b = u2 - (u2 - u1) * .4 * s.unit(); } double lo = 1e300, hi = 0; for (int i = 0; i <= 60; i++) { double v = mag(C.value(a + (b - a) * i / 60, 1)); lo = std::min(lo, v); hi = std::max(hi, v); } DISCARD_IF(hi > 3 * lo || c.K.brk.size() > 2); size_t n = s.in(0, 20), law = s.draw(3); if (law == 1) n = std::max<size_t>(n, 4); if (law == 2) n = std::max<size_t>(n, 6); size_t m = std::max<size_t>(n, 2); double L = alen<2>(C, a, b), h1 = L / (m - 1) * s.real(.5, 1.5), h2 = L / (m - 1) * s.real(.5, 1.5), a1 = s.real(.8, 1.3), a2 = s.real(.8, 1.3); s << "poles " << showp(c.P, 6) << " on " << a << "," << b << " n=" << n << " law " << law << " steps " << h1 << "," << h2 << " growth " << a1 << "," << a2; gbs::msh_edge<double, 2> e = part ? gbs::msh_edge<double, 2>(p, {a, b}) : gbs::msh_edge<double, 2>(p); e.set_n_points(n); if (law == 1) e.update_law(h1, h2); if (law == 2) e.update_law(h1, h2, a1, a2); e.compute_pnts(); auto &P = e.points(); REQUIRE_MSG(P.size() == m, P.size() << " points"); double tol = 2e-3 * L; REQUIRE(dist(P.front(), C.value(a)) < 1e-6 * (1 + L) && dist(P.back(), C.value(b)) < 1e-6 * (1 + L));
    // length of each point along the curve
    auto where = [&](double len) { double x = a, y = b; for (int k = 0; k < 50; k++) { double z = (x + y) / 2; (alen<2>(C, a, z) < len ? x : y) = z; } return C.value((x + y) / 2); }; auto at = [&](size_t i, double len, const char *w) { REQUIRE_MSG(dist(P[i], where(len)) < tol, w << ": point " << i << " is not at length " << len << " of " << L); }; if (law == 0) for (size_t i = 0; i < m; i++) at(i, L * i / (m - 1), "uniform"); else { at(1, h1, "first step"); at(m - 2, L - h2, "last step"); if (law == 2) { at(2, h1 + a1 * h1, "second step"); at(m - 3, L - h2 - a2 * h2, "step before the last"); } } s.nontrivial(m > 3); s.label(law == 0 ? "uniform" : "steps");
}
PBT_ARM(mesh_edges, 80, 2500) { edges<false>(s); }
PBT_ARM(mesh_edges_rational, 50, 1500) { edges<true>(s); }
// a lattice one crossing of which is missed is refused whichever pair of curves it is, and so are tables whose sizes do not fit
PBT_ARM(lattice_refused, 40, 1200)
{
    int L = s.in(2, 4), M = s.in(2, 4), ci = s.draw(L), cj = s.draw(M); double gap = s.one_of({.02, .1, .6}); bool miss = s.chance(4, 5); std::vector<CP<3>> ksi, eth; std::vector<double> x = hard(s, 0, 6, L), y = hard(s, 0, 4, M); std::vector<std::vector<PT<3>>> nd(L, std::vector<PT<3>>(M)); for (int i = 0; i < L; i++) for (int j = 0; j < M; j++) nd[i][j] = {x[i] + s.sym(.1), y[j] + s.sym(.1), s.sym(.2)};
    bool first = s.chance(1, 2); auto line = [](const std::vector<PT<3>> &p) { std::vector<double> u{0}; for (size_t k = 1; k < p.size(); k++) u.push_back(u.back() + dist(p[k - 1], p[k])); return std::make_shared<gbs::BSCurve<double, 3>>(gbs::interpolate<double, 3>(gbs::points_vector<double, 3>(p.begin(), p.end()), u, 1)); };
    auto moved = [&](PT<3> p, int i, int j, bool k) { if (miss && k == first && i == ci && j == cj) p[2] += gap; return p; };
    for (int i = 0; i < L; i++) { std::vector<PT<3>> r; for (int j = 0; j < M; j++) r.push_back(moved(nd[i][j], i, j, true)); ksi.push_back(line(r)); } for (int j = 0; j < M; j++) { std::vector<PT<3>> r; for (int i = 0; i < L; i++) r.push_back(moved(nd[i][j], i, j, false)); eth.push_back(line(r)); }
    s << L << "x" << M << (miss ? " missed crossing " : " crossing ") << ci << "," << cj << " by " << gap << " of the " << (first ? "first" : "second") << " family, nodes " << showp(nd[0]); bool refused = false; try { gbs::lattice_intersections<double, 3>(ksi, eth, 1e-4); } catch (std::invalid_argument &) { refused = true; } REQUIRE_MSG(refused == miss, "lattice " << (refused ? "refused" : "accepted"));
    refused = false; try { gbs::tfi_mesh_2d<double, 3, 1, 1>(ksi, eth, size_t(4), size_t(5), 1e-4); } catch (std::invalid_argument &) { refused = true; } REQUIRE_MSG(refused == miss, "mesh " << (refused ? "refused" : "accepted")); s.nontrivial(); s.label(miss ? "missed" : "met");
}
PBT_ARM(sizes_refused, 300, 9000)
{
    int L = s.in(2, 4), M = s.in(2, 4); std::vector<CP<3>> c; for (int i = 0; i < L; i++) c.push_back(std::make_shared<gbs::BSCurve<double, 3>>(gbs::build_segment(PT<3>{0, double(i), 0}, PT<3>{5, double(i), 0}))); std::vector<std::vector<double>> u(L, hard(s, 0, 5, M)); std::vector<size_t> n(M - 1, 3); int what = s.draw(5), got = 0; s << L << " curves of " << M << " parameters, case " << what;
    if (what == 0) { try { gbs::msh_curves_set_sizes<double, 3>({}, u, .5); } catch (std::invalid_argument &) { got = 1; } } else if (what == 1) { auto v = u; if (s.chance(1, 2)) v.pop_back(); else v.push_back(u[0]); try { gbs::msh_curves_set_sizes<double, 3>(c, v, .5); } catch (std::invalid_argument &) { got = 1; } } else if (what == 2) { auto v = u; v[1 + s.draw(L - 1)].push_back(5); try { gbs::msh_curves_set_sizes<double, 3>(c, v, .5); } catch (std::invalid_argument &) { got = 1; } }
    else if (what == 3) { auto m = n; if (s.chance(1, 2)) m.push_back(3); else m.pop_back(); try { gbs::msh_curves_set<double, 3, 1>(c, m, u); } catch (std::out_of_range &) { got = 1; } } else { auto v = u; v[1 + s.draw(L - 1)].push_back(5); try { gbs::msh_curves_set<double, 3, 1>(c, n, v); } catch (std::invalid_argument &) { got = 1; } } REQUIRE_MSG(got, "sizes that do not fit were accepted"); s.nontrivial(); s.label("case " + std::to_string(what));
}
