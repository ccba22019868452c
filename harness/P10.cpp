#include "gen.h"
#include "shapes.h"
#include <list>
#include <gbs/bssbuild.h>
const char *pbt_property = "P10";
const char *pbt_rule = "2..7 random sections (polynomial or rational, different degrees, knots and domains) lofted with explicit or computed parameters, along a spine, or approximately; networks of curves taken from a random surface given to the Gordon construction; oracle: quad-precision evaluation of the sections under the affine parameter map, ruled surface for degree 1, spine tangents; non-trivial: at least three sections, or sections whose degrees or knots differ";

template <typename V> static bool clear_knots(const V &L)
{
    std::vector<double> all; for (auto &c : L) for (auto b : c.K.brk) all.push_back((b - c.K.lo()) / (c.K.hi() - c.K.lo()));
    std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); i++) { double d = all[i] - all[i - 1]; if (d > 1e-15 && d < 1e-4) return false; }
    return true;
}
static std::vector<double> stations(Src &s, int n, double ratio)
{
    std::vector<double> v{s.chance(1, 2) ? 0. : s.sym(3)}; for (int i = 1; i < n; i++) v.push_back(v.back() + s.real(1, ratio)); return v;
}
// amplification of data by interpolation at v with the knots kv: bounded pole growth is checked instead of a condition number
template <size_t N, bool rat> static double pole_growth(const std::vector<std::array<double, N + rat>> &P, double sc) { return maxabs(P) / sc; }

template <size_t N, bool rat> static void check_section(Src &s, const auto &S, const Crv<N, rat> &c, double v, double tol, const char *what)
{
    auto b = S.bounds();
    for (int k = 0; k < 7; k++) { double x = k < 4 ? k / 3. : s.unit(); double u = std::min(b[0] + x * (b[1] - b[0]), b[1]); near<N>(S.value(u, std::min(std::max(v, b[2]), b[3])), c.val(c.K.lo() + x * (c.K.hi() - c.K.lo())), tol, what, x); }
}
template <size_t N, bool rat> static void loft_explicit(Src &s)
{
    int n = s.in(2, 6); std::vector<Crv<N, rat>> L; for (int i = 0; i < n; i++) L.push_back(gcrv<N, rat>(s, 1, 4, 3)); DISCARD_IF(!clear_knots(L));
    auto v = stations(s, n, 3); size_t q = s.in(1, 5); int how = s.in(0, 2);
    s << n << " sections, q=" << q << " v=" << show(v) << " container " << how; for (auto &c : L) s << " [p=" << c.K.p << " " << show(c.K.flat) << "]";
    using C = typename Crv<N, rat>::C; std::vector<C> cs; for (auto &c : L) cs.push_back(c.make());
    auto S = how == 0 ? gbs::loft(cs, v, q) : how == 1 ? gbs::loft(std::list<C>(cs.begin(), cs.end()), v, q) : n == 2 ? gbs::loft({cs[0], cs[1]}, v, q) : n == 3 ? gbs::loft({cs[0], cs[1], cs[2]}, v, q) : gbs::loft(cs, v, q);
    auto b = S.bounds(); size_t pm = 0; for (auto &c : L) pm = std::max(pm, c.K.p);
    REQUIRE(S.degreeU() == pm && S.degreeV() == std::min<size_t>(q, n - 1));
    REQUIRE_MSG(std::abs(b[0] - L[0].K.lo()) < 1e-12 && std::abs(b[1] - L[0].K.hi()) < 1e-12 && std::abs(b[2] - v[0]) < 1e-12 && std::abs(b[3] - v.back()) < 1e-12, "domain of the loft " << show(b));
    double sc = 1; for (auto &c : L) sc = std::max(sc, c.scale()); double g = maxabs(S.poles()); DISCARD_IF(g > 1e4 * sc);
    for (int j = 0; j < n; j++) check_section<N, rat>(s, S, L[j], v[j], 1e-8 * sc + 1e-10 * g, "section not contained");
    if (S.degreeV() == 1 && !rat) for (int k = 0; k < 4; k++) { size_t j = s.draw(n - 1); double t = s.unit(), x = s.unit(); std::array<double, N> w; auto p = L[j].val(L[j].K.lo() + x * (L[j].K.hi() - L[j].K.lo())), r = L[j + 1].val(L[j + 1].K.lo() + x * (L[j + 1].K.hi() - L[j + 1].K.lo())); for (size_t c = 0; c < N; c++) w[c] = (1 - t) * p[c] + t * r[c]; near<N>(S.value(std::min(b[0] + x * (b[1] - b[0]), b[1]), v[j] + t * (v[j + 1] - v[j])), w, 1e-8 * sc, "ruled surface", t); }
    bool diff = false; for (auto &c : L) diff |= c.K.p != L[0].K.p || c.K.flat != L[0].K.flat; s.nontrivial(n > 2 || diff);
}
PBT_ARM(loft_d3, 1500, 40000) { loft_explicit<3, false>(s); }
PBT_ARM(loft_d2, 700, 20000) { loft_explicit<2, false>(s); }
PBT_ARM(loft_rational, 1500, 40000) { loft_explicit<3, true>(s); }

// sections with a common basis: the computed parameters are the averaged normalised chord lengths of the pole rows
template <bool rat> struct Family { std::vector<Crv<3, rat>> L; std::vector<double> v; };
template <bool rat> static std::vector<double> averaged(const std::vector<Crv<3, rat>> &L)
{
    size_t n = L.size(), nu = L[0].P.size(), used = 0; std::vector<double> v(n, 0.);
    for (size_t i = 0; i < nu; i++) { std::vector<double> a(n, 0.); for (size_t j = 1; j < n; j++) a[j] = a[j - 1] + dist(L[j].P[i], L[j - 1].P[i]); if (a.back() <= 0) continue; for (size_t j = 0; j < n; j++) v[j] += a[j] / a.back(); used++; }
    if (!used) { for (size_t j = 0; j < n; j++) v[j] = double(j) / double(n - 1); return v; }
    for (auto &x : v) x /= double(used); return v;
}
template <bool rat> static void loft_auto(Src &s)
{
    int n = s.in(2, 7); std::vector<Crv<3, rat>> L{gcrv<3, rat>(s, 1, 4, 3)}; for (int i = 1; i < n; i++) { auto c = L[0]; if constexpr (rat) c.P = hpoints<double, 3>(s, c.K.n(), 10, 3); else c.P = points<double, 3>(s, c.K.n()); L.push_back(c); }
    int deg = s.in(0, 3); // degenerate rows: a pole common to all sections
    if (deg == 1) for (auto &c : L) c.P[0] = L[0].P[0]; if (deg == 2) for (auto &c : L) c.P.back() = L[0].P.back();
    auto v = averaged<rat>(L); for (int i = 1; i < n; i++) DISCARD_IF(v[i] - v[i - 1] < 0.03);
    int how = s.in(0, 2); size_t q = s.in(1, 5); s << n << " sections of degree " << L[0].K.p << ", degenerate " << deg << ", q_max=" << q << " container " << how << " v=" << show(v);
    using C = typename Crv<3, rat>::C; std::vector<C> cs; for (auto &c : L) cs.push_back(c.make());
    auto S = how == 0 ? gbs::loft(cs, q) : how == 1 ? gbs::loft(std::list<C>(cs.begin(), cs.end()), q) : n == 2 ? gbs::loft({cs[0], cs[1]}, q) : gbs::loft(cs, q);
    REQUIRE(S.degreeU() == L[0].K.p && S.degreeV() == std::min<size_t>(q, n - 1)); auto b = S.bounds(); REQUIRE(std::abs(b[2]) < 1e-12 && std::abs(b[3] - 1) < 1e-12);
    double sc = 1; for (auto &c : L) sc = std::max(sc, c.scale()); double g = maxabs(S.poles()); DISCARD_IF(g > 1e4 * sc);
    for (int j = 0; j < n; j++) check_section<3, rat>(s, S, L[j], v[j], 1e-8 * sc + 1e-10 * g, "section not contained");
    s.nontrivial(n > 2);
}
PBT_ARM(loft_auto_poly, 1200, 30000) { loft_auto<false>(s); }
PBT_ARM(loft_auto_rational, 1000, 30000) { loft_auto<true>(s); }
// any sections, computed parameters: first and last sections are the ends, each other one is met once in order
PBT_ARM(loft_auto_mixed, 800, 20000)
{
    int n = s.in(2, 5); std::vector<Crv<3, false>> L; for (int i = 0; i < n; i++) { auto c = gcrv<3, false>(s, 1, 3, 3); for (auto &p : c.P) p[2] = 20 * i + p[2] * 0.1; L.push_back(c); } DISCARD_IF(!clear_knots(L));
    size_t q = s.in(1, 3); s << n << " sections, q_max=" << q; for (auto &c : L) s << " [p=" << c.K.p << " " << show(c.K.flat) << "]";
    bool ptr = s.chance(1, 3); std::vector<gbs::BSCurve<double, 3>> cs; std::vector<std::shared_ptr<gbs::Curve<double, 3>>> ps; for (auto &c : L) { cs.push_back(c.make()); ps.push_back(std::make_shared<gbs::BSCurve<double, 3>>(c.make())); }
    auto S = ptr ? gbs::loft(ps, q) : gbs::loft(cs, q); auto b = S.bounds(); double sc = 1; for (auto &c : L) sc = std::max(sc, c.scale());
    check_section<3, false>(s, S, L[0], b[2], 1e-8 * sc, "first section"); check_section<3, false>(s, S, L.back(), b[3], 1e-8 * sc, "last section");
    // middle sections: the parameter is found from the third coordinate of the first pole, then the whole section is checked there
    double v0 = 0;
    for (int j = 1; j + 1 < n; j++)
    {
        auto f = [&](double v) { double d = 0; for (int k = 0; k <= 4; k++) { double x = k / 4.; d += dist(S.value(std::min(b[0] + x * (b[1] - b[0]), b[1]), v), L[j].val(L[j].K.lo() + x * (L[j].K.hi() - L[j].K.lo()))); } return d; };
        double best = 1e300, bv = 0; for (int k = 0; k <= 400; k++) { double v = k / 400.; double d = f(v); if (d < best) { best = d; bv = v; } }
        double lo = std::max(0., bv - 0.0026), hi = std::min(1., bv + 0.0026); for (int k = 0; k < 80; k++) { double m1 = lo + (hi - lo) * 0.382, m2 = lo + (hi - lo) * 0.618; if (f(m1) < f(m2)) hi = m2; else lo = m1; }
        bv = (lo + hi) / 2; REQUIRE_MSG(f(bv) < 1e-5 * sc, "section " << j << " is missed by " << f(bv)); REQUIRE(bv > v0); v0 = bv;
    }
    s.nontrivial(n > 2);
}
// ------------------------------------------------------------------ spine lofts
struct Spine { gbs::BSCurve<double, 3> c; };
template <bool rat> static std::vector<Crv<3, rat>> planar_sections(Src &s, int n, const std::function<std::array<double, 3>(double)> &pos)
{
    std::vector<Crv<3, rat>> L; auto base = gcrv<3, rat>(s, 1, 3, 2);
    for (int i = 0; i < n; i++)
    {
        auto c = base; auto o = pos(double(i) / (n - 1)); auto r = s.bulk(); size_t m = c.P.size(); double twist = r.range(-0.2, 0.2);
        for (size_t k = 0; k < m; k++) { double x = m == 1 ? 0 : -1 + 2. * k / (m - 1), w = rat ? r.range(0.8, 1.3) : 1; double lx = 2 * x, ly = m > 2 ? 0.6 * (1 - x * x) : 0; c.P[k] = {}; std::array<double, 3> q{o[0], o[1] + lx * std::cos(twist) - ly * std::sin(twist), o[2] + lx * std::sin(twist) + ly * std::cos(twist)}; for (int d = 0; d < 3; d++) c.P[k][d] = q[d] * w; if constexpr (rat) c.P[k][3] = w; }
        L.push_back(c);
    }
    return L;
}
template <bool rat> static void spine_loft(Src &s)
{
    int n = s.in(2, 6); double L0 = s.real(6, 12), amp = s.real(0, 1.5); auto pos = [&](double t) { return std::array<double, 3>{L0 * t, amp * t * t, 0.}; };
    auto L = planar_sections<rat>(s, n, pos); size_t q = s.in(1, 8);
    gbs::BSCurve<double, 3> spine({{0, 0, 0}, {L0 / 2, 0, 0}, {L0, amp, 0}}, {0, 0, 0, 1, 1, 1}, 2);
    s << n << " sections of degree " << L[0].K.p << " v_degree_max=" << q << " length " << L0 << " bend " << amp;
    using G = gbs::BSCurveGeneral<double, 3, rat>; using C = typename Crv<3, rat>::C; std::list<C> cs; for (auto &c : L) cs.push_back(c.make()); std::list<G *> ps; for (auto &c : cs) ps.push_back(&c);
    auto v = averaged<rat>(L); double sc = 1; for (auto &c : L) sc = std::max(sc, c.scale());
    // get the station of the foot points, with the library's own search judged elsewhere (P13)
    std::vector<double> foot; for (auto &c : cs) foot.push_back(gbs::extrema_curve_curve<double, 3>(spine, c, 1e-6)[0]);
    for (int j = 1; j < n; j++) DISCARD_IF(foot[j] - foot[j - 1] < 0.05);
    auto check = [&](const auto &S) {
        double g = maxabs(S.poles()); DISCARD_IF(!(g < 1e3 * sc)); auto b = S.bounds(); REQUIRE(std::abs(b[2] - v.front()) < 1e-12 && std::abs(b[3] - v.back()) < 1e-12 && S.degreeU() == L[0].K.p);
        for (int j = 0; j < n; j++)
        {
            check_section<3, rat>(s, S, L[j], v[j], 1e-8 * (sc + g), "section not contained");
            auto t = spine.value(foot[j], 1); double m = mag(t); double x = s.unit(); auto d = S.value(std::min(b[0] + x * (b[1] - b[0]), b[1]), v[j], 0, 1);
            std::array<double, 3> cr{d[1] * t[2] - d[2] * t[1], d[2] * t[0] - d[0] * t[2], d[0] * t[1] - d[1] * t[0]}; double dm = mag(d); REQUIRE_MSG(mag(cr) <= 1e-5 * (dm + 1) * m + 1e-7 * g * m, "the surface does not follow the spine at section " << j << ": " << show(d) << " against " << show(t));
            REQUIRE_MSG(d[0] * t[0] + d[1] * t[1] + d[2] * t[2] > 0, "tangent opposite to the spine");
        } };
    if constexpr (!rat) { if (s.chance(1, 2)) { check(gbs::loft(cs, spine, q)); s.nontrivial(n > 2); return; } }
    check(gbs::loft<double, 3, rat>(ps, spine, q)); s.nontrivial(n > 2);
}
PBT_ARM(spine_poly, 300, 6000) { spine_loft<false>(s); }
PBT_ARM(spine_rational, 300, 6000) { spine_loft<true>(s); }
template <bool rat> static void approx_loft(Src &s)
{
    int n = s.in(2, 6); double L0 = s.real(6, 12), amp = s.chance(1, 2) ? 0. : s.real(0, 1.5); auto pos = [&](double t) { return std::array<double, 3>{L0 * t, amp * t * t, 0.}; };
    auto L = planar_sections<rat>(s, n, pos); size_t q = s.in(1, 4);
    gbs::BSCurve<double, 3> spine({{0, 0, 0}, {L0 / 2, 0, 0}, {L0, amp, 0}}, {0, 0, 0, 1, 1, 1}, 2);
    s << n << " sections of degree " << L[0].K.p << " v_degree_max=" << q << " length " << L0 << " bend " << amp;
    using G = gbs::BSCurveGeneral<double, 3, rat>; using C = typename Crv<3, rat>::C; std::list<C> cs; size_t pmax = L[0].K.p, added = 0; for (auto &c : L) { cs.push_back(c.make()); double lo = c.K.lo(), w = c.K.hi() - lo; if (s.chance(1, 2)) { for (int t = 0; t < 2; t++) { double u = lo + w * s.real(0.1, 0.9); bool ok = true; for (auto &o : cs) for (auto x : o.knotsFlats()) if (std::abs(x - u) < 0.08 * w) ok = false; if (ok) { cs.back().insertKnot(u, 1); added++; } } } if (s.chance(1, 4)) { cs.back().increaseDegree(1); pmax = L[0].K.p + 1; } } std::list<G *> ps; for (auto &c : cs) ps.push_back(&c);
    double sc = 1; for (auto &c : L) sc = std::max(sc, c.scale());
    std::vector<double> f; { auto same = gbs::get_BSCurves_ptr_cpy(ps); gbs::unify_curves_degree(same); gbs::unify_curves_knots(same); for (auto &c : same) f.push_back(gbs::extrema_curve_curve<double, 3>(spine, c, gbs::extrema_tol<double>)[0]); } // the search has a tolerance: same curves, same stations
    double f0 = f[0], f1 = f.back(); for (auto &x : f) x = (x - f0) / (f1 - f0);
    for (int j = 1; j < n; j++) DISCARD_IF(!(f[j] - f[j - 1] > 0.05));
    auto S = gbs::loft_approx<double, 3, rat>(ps, spine, q); auto b = S.bounds(); double g = maxabs(S.poles()); DISCARD_IF(!(g < 1e3 * sc));
    REQUIRE(S.degreeU() == pmax && S.degreeV() == std::min<size_t>(q, n - 1) && S.nPolesV() == n); REQUIRE(std::abs(b[2]) < 1e-12 && std::abs(b[3] - 1) < 1e-12);
    for (int j = 0; j < n; j++)
    {   // at the station of its foot point or, that search having a tolerance, close to it
        auto off = [&](double v) { double d = 0; for (int k = 0; k <= 6; k++) { double x = k / 6.; d = std::max(d, dist(S.value(std::min(b[0] + x * (b[1] - b[0]), b[1]), v), L[j].val(L[j].K.lo() + x * (L[j].K.hi() - L[j].K.lo())))); } return d; };
        double w = std::min(std::max(f[j], b[2]), b[3]); if (off(w) > 1e-7 * (sc + g)) { double lo = std::max(b[2], w - 0.03), hi = std::min(b[3], w + 0.03); for (int k = 0; k < 70; k++) { double m1 = lo + (hi - lo) * 0.382, m2 = lo + (hi - lo) * 0.618; if (off(m1) < off(m2)) hi = m2; else lo = m1; } w = (lo + hi) / 2; s.label("station searched"); }
        REQUIRE_MSG(off(w) <= 1e-6 * (sc + g), "section " << j << " is missed by " << off(w) << " near " << f[j]); check_section<3, rat>(s, S, L[j], w, 1e-5 * (sc + g), "section not reproduced");
    }
    // fewer poles along the sections: still a least-squares fit of the same grid, so never worse than 1e3 x nothing - only its shape is checked
    size_t nu = s.in(int(L[0].K.p) + 1, int(L[0].K.p) + 3); auto A = gbs::loft_approx<double, 3, rat>(ps, spine, L[0].K.p, S.degreeV(), nu, n, 40); REQUIRE(A.nPolesU() == nu && A.nPolesV() == n); auto a = A.bounds(); REQUIRE(std::abs(a[0] - b[0]) < 1e-12 && std::abs(a[1] - b[1]) < 1e-12);
    std::list<G *> one{ps.front()}; bool refused = false; try { gbs::loft_approx<double, 3, rat>(one, spine, q); } catch (const std::length_error &) { refused = true; } REQUIRE_MSG(refused, "a single section is accepted");
    refused = false; try { gbs::loft<double, 3, rat>(one, spine, q); } catch (const std::length_error &) { refused = true; } REQUIRE_MSG(refused, "a single section is accepted by the spine loft");
    s.nontrivial(n > 2); s.label(added ? "different knots" : "same knots");
}
PBT_ARM(approx_poly, 200, 5000) { approx_loft<false>(s); }
PBT_ARM(approx_rational, 200, 5000) { approx_loft<true>(s); }
// ------------------------------------------------------------------ Gordon
PBT_ARM(gordon, 250, 6000)
{
    auto A = gsrf<false>(s, 1, 3); auto S = A.make(); double sc = A.scale(); for (auto &p : A.P) { }
    int nu = s.in(2, 4), nv = s.in(2, 4); auto st = [&](int n) { std::vector<double> v{0.}; for (int i = 1; i < n; i++) v.push_back(v.back() + s.real(1, 2)); for (auto &x : v) x /= v.back(); v.back() = 1; return v; };
    auto V = st(nu), U = st(nv); // u-curves at V, v-curves at U
    bool list = s.chance(1, 3); s << "surface p=" << A.U.p << " q=" << A.V.p << " ku=" << show(A.U.flat) << " kv=" << show(A.V.flat) << " V=" << show(V) << " U=" << show(U);
    std::vector<gbs::BSCurve<double, 3>> cu, cv; for (auto v : V) cu.push_back(S.isoV(v)); for (auto u : U) cv.push_back(S.isoU(u));
    bool away = s.chance(1, 5); if (away)
    {
        double amt = s.one_of({30., 1e-2, 2e-3}); int i = s.in(1, nu - 1), j = s.in(1, nv - 1), how = s.draw(3); if (!how) amt = 30; s << " away " << amt << " how " << how << " at " << i << "," << j; s.label(how ? "one crossing missed" : "a curve away");
        auto lift = [&](auto &c, double at) { // near one crossing only
            if (how) { std::vector<double> k; for (int t = 1; t < 60; t++) { double x = c.bounds()[0] + (c.bounds()[1] - c.bounds()[0]) * t / 60.; bool in = false; for (auto y : c.knotsFlats()) in |= std::abs(y - x) < 1e-3; if (!in) k.push_back(x); } for (auto x : k) c.insertKnot(x); }
            auto P = c.poles(); size_t p = c.degree(), b = 0; double best = -1; auto &f = c.knotsFlats(); if (how) { for (size_t q = 0; q < P.size(); q++) { std::vector<std::array<double, 1>> e(P.size()); e[q] = {1}; double v = double(ref::curve<double, 1>(f, e, p, std::min(std::max(at, f.front()), f.back()), 0)[0].v[0]); if (v > best) { best = v; b = q; } } P[b][2] += amt / best; } else for (auto &x : P) x[2] += amt; c.copyPoles(P); };
        if (s.chance(1, 2)) lift(cu[i], U[j]); else lift(cv[j], V[i]);
    }
    bool refused = false; gbs::BSSurface<double, 3> G;
    try { G = list ? [&] { std::list<gbs::BSCurve<double, 3>> a(cu.begin(), cu.end()), b(cv.begin(), cv.end()); return gbs::gordon<double, 3>(a.begin(), a.end(), b.begin(), b.end(), 1e-4); }() : gbs::gordon<double, 3>(cu.begin(), cu.end(), cv.begin(), cv.end(), 1e-4); }
    catch (const std::invalid_argument &) { refused = true; }
    if (away) { REQUIRE_MSG(refused, "curves which do not touch are accepted"); return; }
    DISCARD_IF(refused); // the foot point search may end in a local minimum (P13)
    REQUIRE(G.degreeU() == A.U.p && G.degreeV() == A.V.p);
    auto b = G.bounds();
    for (int i = 0; i < nu; i++) for (int k = 0; k < 4; k++) { double x = k == 0 ? 0.5 : s.unit(); near<3>(G.value(std::min(std::max(x, b[0]), b[1]), std::min(std::max(V[i], b[2]), b[3])), A.val(x, V[i]), 2e-4 * sc, "u-curve not contained", x); }
    for (int j = 0; j < nv; j++) for (int k = 0; k < 4; k++) { double x = k == 0 ? 0.5 : s.unit(); near<3>(G.value(std::min(std::max(U[j], b[0]), b[1]), std::min(std::max(x, b[2]), b[3])), A.val(U[j], x), 2e-4 * sc, "v-curve not contained", x); }
    s.nontrivial(nu != nv || A.U.p != A.V.p);
}
