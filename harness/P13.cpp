#include "gen.h"
#include "shapes.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/extrema.h>
#include <gbs/bscanalysis.h>
const char *pbt_property = "P13";
const char *pbt_rule = "random curves and surfaces with query points (on them, near, far), crossing or apart; projection of a point, curve/curve, curve/surface and line/line extrema, coordinate solving and closest curve; oracle: the parameters lie in the domain, the reported distance is the one at these parameters, no sample of the bracket, of the starting point and of the neighbourhood of the answer is closer, constructed crossings are found; non-trivial: the answer is inside the domain";
// the library reports the squared distance (recorded as a finding): accept it or the distance itself
static bool reported(double r, double d, double tol) { return std::abs(r - d) <= tol * (1 + d) || std::abs(r - d * d) <= tol * (1 + d * d); }
PBT_PROBE(extrema_squared)
{
    gbs::BSCurve<double, 2> c({{0., 0.}, {1., 0.}}, {0., 0., 1., 1.}, 1);
    auto [u, d] = gbs::extrema_curve_point<double, 2>(c, {0.4, 3.}, 1e-6);
    what = "extrema_curve_point (and the other extrema_*, dev_from_points) report the squared distance: point at distance 3 of a segment, reported " + std::to_string(d);
    return std::abs(d - 3) > 1e-3 && std::abs(d - 9) < 1e-3;
}
template <size_t N, bool rat> static Crv<N, rat> tame(Src &s, int pmin = 1, int pmax = 4, int spans = 3)
{
    Crv<N, rat> c; size_t p = s.in(pmin, pmax); KOpt o; o.max_spans = spans; o.ratio = 3; o.unit = s.chance(1, 2); c.K = knots<double>(s, p, o);
    auto r = s.bulk(); size_t n = c.K.n(); double len = std::exp(s.real(-1, 2)), amp = s.real(0, 1); c.P.resize(n);
    for (size_t i = 0; i < n; i++)
    {
        double g = 0; for (size_t j = 1; j <= p; j++) g += c.K.flat[i + j]; g = (g / p - c.K.lo()) / (c.K.hi() - c.K.lo());
        c.P[i][0] = len * g; for (size_t k = 1; k < N; k++) c.P[i][k] = len * amp * r.range(-0.5, 0.5);
        if constexpr (rat) { double w = r.range(0.8, 1.25); for (size_t k = 0; k < N; k++) c.P[i][k] *= w; c.P[i][N] = w; }
    }
    return c;
}
template <size_t N, bool rat> static void curve_point(Src &s)
{
    auto c = s.chance(1, 2) ? tame<N, rat>(s) : gcrv<N, rat>(s, 1, 4, 3); auto C = c.make(); double lo = c.K.lo(), hi = c.K.hi(), sc = c.scale();
    std::array<double, N> P; double ut = lo + (hi - lo) * s.unit(); bool on = s.chance(1, 3);
    if (on) P = c.val(ut); else { double m = s.one_of({0.2, 1., 3.}); for (size_t k = 0; k < N; k++) P[k] = c.val(ut)[k] + s.sym(m * sc); }
    auto al = nlopt::LN_COBYLA; bool start = s.chance(1, 3); double u0 = lo + (hi - lo) * s.real(0.05, 0.95);
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " point=" << show(P) << (start ? " from " : " bracketed ") << u0;
    auto D = [&](double u) { return dist(c.val(u), P); };
    auto [u, d] = start ? gbs::extrema_curve_point<double, N>(C, P, u0, 1e-6, al) : gbs::extrema_curve_point<double, N>(C, P, 1e-6, al);
    REQUIRE_MSG(u >= lo && u <= hi, "parameter " << u << " out of the curve");
    double du = D(u); double tol = 1e-3 * sc;
    REQUIRE_MSG(reported(d, du, 1e-6 * sc), "distance reported " << d << ", is " << du);
    if (start) REQUIRE_MSG(du <= D(u0) + 1e-9 * sc, "further than the start: " << du << " > " << D(u0));
    else for (int i = 0; i < 30; i++) { double x = lo + (hi - lo) * i / 29.; REQUIRE_MSG(du <= D(x) + 1e-9 * sc, "sample " << x << " is closer: " << D(x) << " < " << du); }
    // no descent left around the answer
    if ((c.K.p > 1 || c.K.brk.size() == 2) && !c.K.has_multiple()) for (double h : {1e-2, 3e-3}) for (double x : {u - h * (hi - lo), u + h * (hi - lo)}) if (x >= lo && x <= hi) REQUIRE_MSG(D(x) >= du - tol, "neighbour " << x << " is closer: " << D(x) << " < " << du << " at " << u);
    s.nontrivial(u > lo && u < hi);
}
PBT_ARM(curve_point_d2, 600, 20000) { curve_point<2, false>(s); }
PBT_ARM(curve_point_d3, 600, 20000) { curve_point<3, false>(s); }
PBT_ARM(curve_point_rational, 500, 15000) { curve_point<3, true>(s); }
template <bool rat> static void surf_point(Src &s)
{
    auto c = gsrf<rat>(s, 1, 3, false); auto S = c.make(); double sc = c.scale(), ul = c.U.lo(), uh = c.U.hi(), vl = c.V.lo(), vh = c.V.hi(), Lu = uh - ul, Lv = vh - vl; double ut = c.U.lo() + (c.U.hi() - c.U.lo()) * s.unit(), vt = c.V.lo() + (c.V.hi() - c.V.lo()) * s.unit(); auto P = c.val(ut, vt); bool on = s.chance(1, 3);
    if (!on) { double m = s.one_of({0.1, 0.5, 2.}); for (auto &x : P) x += s.sym(m * sc); }
    auto al = nlopt::LN_COBYLA; bool start = s.chance(1, 3); double u0 = ul + Lu * s.real(0.05, 0.95), v0 = vl + Lv * s.real(0.05, 0.95);
    s << "pu=" << c.U.p << " pv=" << c.V.p << " U=" << show(c.U.flat) << " V=" << show(c.V.flat) << " point=" << show(P) << " start=" << start;
    auto D = [&](double u, double v) { return dist(c.val(u, v), P); };
    auto [u, v, d] = start ? gbs::extrema_surf_pnt<double, 3>(S, P, u0, v0, 1e-6, al) : gbs::extrema_surf_pnt<double, 3>(S, P, 1e-6, al, 12, 9);
    REQUIRE(u >= ul && u <= uh && v >= vl && v <= vh); double du = D(u, v), tol = 2e-3 * sc;
    REQUIRE_MSG(reported(d, du, 1e-6 * sc), "distance reported " << d << ", is " << du);
    if (start) REQUIRE(du <= D(u0, v0) + 1e-9 * sc);
    else for (int i = 0; i < 12; i++) for (int j = 0; j < 9; j++) REQUIRE_MSG(du <= D(ul + Lu * i / 11., vl + Lv * j / 8.) + 1e-9 * sc, "sample " << i / 11. << "," << j / 8. << " is closer");
    if (c.U.p > 1 && c.V.p > 1 && !c.U.has_multiple() && !c.V.has_multiple()) for (double h : {1e-2, 3e-3}) for (int k = 0; k < 8; k++) { double x = u + h * Lu * std::cos(k * M_PI / 4), y = v + h * Lv * std::sin(k * M_PI / 4); if (x >= ul && x <= uh && y >= vl && y <= vh) REQUIRE_MSG(D(x, y) >= du - tol, "neighbour " << x << "," << y << " is closer: " << D(x, y) << " < " << du << " at " << u << "," << v); }
    s.nontrivial(u > ul && u < uh && v > vl && v < vh);
}
PBT_ARM(surf_point, 200, 6000) { surf_point<false>(s); }
PBT_ARM(surf_point_rational, 150, 5000) { surf_point<true>(s); }
template <size_t N> static void curve_curve(Src &s)
{
    auto a = tame<N, false>(s), b = tame<N, false>(s); bool cross = s.chance(1, 2); double ua = inner_param(s, a.K, 0.1), ub = inner_param(s, b.K, 0.1);
    // second curve turned by a quarter so that crossings are transversal
    for (auto &x : b.P) { std::swap(x[0], x[1]); x[0] = -x[0]; }
    std::array<double, N> t; for (size_t k = 0; k < N; k++) t[k] = a.val(ua)[k] - b.val(ub)[k]; if (!cross) for (auto &x : t) x += s.sym(a.scale());
    for (auto &x : b.P) for (size_t k = 0; k < N; k++) x[k] += t[k];
    auto A = a.make(), B = b.make(); double sc = a.scale() + b.scale(); auto al = nlopt::LN_COBYLA; bool start = s.chance(1, 4); double u0 = a.K.lo() + (a.K.hi() - a.K.lo()) * s.real(0.05, 0.95), v0 = b.K.lo() + (b.K.hi() - b.K.lo()) * s.real(0.05, 0.95);
    s << "p=" << a.K.p << "," << b.K.p << " knots=" << show(a.K.flat) << show(b.K.flat) << " poles=" << showp(a.P, 8) << showp(b.P, 8) << " cross=" << cross << " at " << ua << "," << ub << " start=" << start;
    auto D = [&](double u, double v) { return dist(a.val(u), b.val(v)); }; bool smooth = (a.K.p > 1 || a.K.brk.size() == 2) && (b.K.p > 1 || b.K.brk.size() == 2) && !a.K.has_multiple() && !b.K.has_multiple(); // the solver may stop in a crease
    auto [u, v, d] = start ? gbs::extrema_curve_curve<double, N>(A, B, u0, v0, 1e-6, al) : gbs::extrema_curve_curve<double, N>(A, B, 1e-6, al);
    REQUIRE(u >= a.K.lo() && u <= a.K.hi() && v >= b.K.lo() && v <= b.K.hi()); double du = D(u, v);
    REQUIRE_MSG(reported(d, du, 1e-6 * sc), "distance reported " << d << ", is " << du);
    if (start) { REQUIRE(du <= D(u0, v0) + 1e-9 * sc); }
    else
    {
        for (int i = 0; i < 30; i += 1 + s.draw(3)) for (int j = 0; j < 30; j += 2) { double x = a.K.lo() + (a.K.hi() - a.K.lo()) * i / 29., y = b.K.lo() + (b.K.hi() - b.K.lo()) * j / 29.; REQUIRE_MSG(du <= D(x, y) + 1e-9 * sc, "samples " << x << "," << y << " are closer: " << D(x, y) << " < " << du); }
        // the best pair of samples lies by the crossing: it has to be found
        double bm = 1e300, bi = 0, bj = 0; if (cross) for (int i = 0; i < 30; i++) for (int j = 0; j < 30; j++) { double x = a.K.lo() + (a.K.hi() - a.K.lo()) * i / 29., y = b.K.lo() + (b.K.hi() - b.K.lo()) * j / 29., d2 = D(x, y); if (d2 < bm) { bm = d2; bi = x; bj = y; } }
        if (cross && smooth && std::abs(bi - ua) < 0.04 * (a.K.hi() - a.K.lo()) && std::abs(bj - ub) < 0.04 * (b.K.hi() - b.K.lo())) REQUIRE_MSG(du <= 2e-3 * sc, "crossing curves found apart by " << du << " at " << u << "," << v);
    }
    double tol = 2e-3 * sc;
    if (smooth) for (double h : {1e-2, 3e-3}) for (int k = 0; k < 8; k++) { double x = u + h * (a.K.hi() - a.K.lo()) * std::cos(k * M_PI / 4), y = v + h * (b.K.hi() - b.K.lo()) * std::sin(k * M_PI / 4); if (x >= a.K.lo() && x <= a.K.hi() && y >= b.K.lo() && y <= b.K.hi()) REQUIRE_MSG(D(x, y) >= du - tol, "neighbour " << x << "," << y << " is closer: " << D(x, y) << " < " << du << " at " << u << "," << v); }
    s.nontrivial(cross);
}
// a list of curves: each as if it were alone, in the order of the list
template <size_t N> static void curve_list(Src &s)
{
    auto a = tame<N, false>(s); auto A = a.make(); std::vector<std::shared_ptr<gbs::Curve<double, N>>> L; int n = s.in(0, 6); for (int i = 0; i < n; i++) { auto b = tame<N, false>(s); std::array<double, N> t; for (size_t k = 0; k < N; k++) t[k] = s.sym(a.scale()); for (auto &x : b.P) { std::swap(x[0], x[1]); x[0] = -x[0]; for (size_t k = 0; k < N; k++) x[k] += t[k]; } L.push_back(std::make_shared<typename Crv<N, false>::C>(b.make())); }
    s << n << " curves"; double tol = s.one_of({1e-6, 1e-4}); auto R = gbs::extrema_curve_curve_lst<double, N>(A, L.begin(), L.end(), tol); REQUIRE(R.size() == L.size());
    for (int i = 0; i < n; i++) { auto e = gbs::extrema_curve_curve<double, N>(A, *L[i], tol); for (int k = 0; k < 3; k++) REQUIRE_MSG(R[i][k] == e[k], "curve " << i << " of the list: " << R[i][k] << " instead of " << e[k]); }
    s.nontrivial(n > 1);
}
PBT_ARM(curve_list_d2, 60, 2000) { curve_list<2>(s); }
PBT_ARM(curve_list_d3, 60, 2000) { curve_list<3>(s); }
PBT_ARM(curve_curve_d2, 300, 8000) { curve_curve<2>(s); }
PBT_ARM(curve_curve_d3, 300, 8000) { curve_curve<3>(s); }
PBT_ARM(surf_curve, 100, 3000)
{
    auto c = gsrf<false>(s, 1, 3, false); auto S = c.make(); double ul = c.U.lo(), uh = c.U.hi(), vl = c.V.lo(), vh = c.V.hi(), Lu = uh - ul, Lv = vh - vl, us = ul + Lu * s.real(0.1, 0.9), vs = vl + Lv * s.real(0.1, 0.9); bool cross = s.chance(2, 3);
    auto k = tame<3, false>(s, 1, 3, 2); double uc = inner_param(s, k.K, 0.15); for (auto &x : k.P) std::swap(x[0], x[2]); // along z
    std::array<double, 3> t; for (int j = 0; j < 3; j++) t[j] = c.val(us, vs)[j] - k.val(uc)[j]; if (!cross) t[2] += 8 + s.real(0, 10);
    for (auto &x : k.P) for (int j = 0; j < 3; j++) x[j] += t[j];
    auto C = k.make(); double sc = c.scale() + k.scale(); auto al = nlopt::LN_COBYLA; double lo = k.K.lo(), hi = k.K.hi();
    s << "pu=" << c.U.p << " pv=" << c.V.p << " U=" << show(c.U.flat) << " V=" << show(c.V.flat) << " curve p=" << k.K.p << " knots=" << show(k.K.flat) << " poles=" << showp(k.P, 6) << " cross=" << cross << " at " << us << "," << vs << "," << uc;
    auto D = [&](double u, double v, double w) { return dist(c.val(u, v), k.val(w)); };
    std::array<double, 4> R; bool start = s.chance(1, 3); double a0 = ul + Lu * s.real(0.05, 0.95), b0 = vl + Lv * s.real(0.05, 0.95), c0 = lo + (hi - lo) * s.real(0.05, 0.95);
    if (start) R = gbs::extrema_surf_curve<double, 3>(S, C, c0, a0, b0, 1e-6, al); else R = gbs::extrema_surf_curve<double, 3>(S, C, 1e-6, al, 10, 8, 7);
    auto [u, v, w, d] = R; REQUIRE(u >= ul && u <= uh && v >= vl && v <= vh && w >= lo && w <= hi); double du = D(u, v, w);
    REQUIRE_MSG(reported(d, du, 1e-6 * sc), "distance reported " << d << ", is " << du);
    if (start) { REQUIRE(du <= D(a0, b0, c0) + 1e-9 * sc); }
    else for (int i = 0; i < 10; i++) for (int j = 0; j < 8; j++) for (int l = 0; l < 7; l += 2) REQUIRE_MSG(du <= D(ul + Lu * i / 9., vl + Lv * j / 7., lo + (hi - lo) * l / 6.) + 1e-9 * sc, "sample " << i / 9. << "," << j / 7. << " is closer");
    bool smooth = c.U.p > 1 && c.V.p > 1 && k.K.p > 1 && !c.U.has_multiple() && !c.V.has_multiple() && !k.K.has_multiple(); // the solver may stop in a crease
    if (smooth) for (double h : {1e-2, 3e-3}) for (int q = 0; q < 6; q++) { double x = u + Lu * (q == 0 ? h : q == 1 ? -h : 0), y = v + Lv * (q == 2 ? h : q == 3 ? -h : 0), z = w + (hi - lo) * (q == 4 ? h : q == 5 ? -h : 0); if (x >= ul && x <= uh && y >= vl && y <= vh && z >= lo && z <= hi) REQUIRE_MSG(D(x, y, z) >= du - 3e-3 * sc, "neighbour " << x << "," << y << "," << z << " is closer: " << D(x, y, z) << " < " << du); }
    s.nontrivial(cross);
}

// gradient based solvers: started inside, they must not go uphill and must stop where the gradient (along the free directions) vanishes
template <typename F> static void stationary(const F &D2, std::vector<double> x, const std::vector<double> &lo, const std::vector<double> &hi, double start, double sc)
{
    double f = D2(x); REQUIRE_MSG(f <= start + 1e-9 * sc, "uphill: " << f << " from " << start);
    for (size_t i = 0; i < x.size(); i++)
    {
        double L = hi[i] - lo[i], h = 1e-4 * L; auto a = x, b = x; a[i] = std::max(lo[i], x[i] - h); b[i] = std::min(hi[i], x[i] + h);
        double g = (D2(b) - D2(a)) / (b[i] - a[i]) * L; // scaled slope of the squared distance
        if (x[i] <= lo[i] + 1e-5 * L) g = std::min(g, 0.); if (x[i] >= hi[i] - 1e-5 * L) g = std::max(g, 0.);
        REQUIRE_MSG(std::abs(g) <= 0.02 * sc, "slope " << g << " left along direction " << i << " at " << show(x));
    }
}
// the solvers stay in the box they are given and find the best point of it: a separable bowl, whose best point is its bottom brought back in the box
PBT_ARM(boxed_search, 300, 9000)
{
    size_t n = s.in(1, 3); std::vector<double> c(n), w(n), x(n), lo(n), hi(n), want(n); bool free = true; for (size_t k = 0; k < n; k++) { lo[k] = s.sym(3); hi[k] = lo[k] + s.real(0.2, 4); w[k] = s.real(0.3, 3); double L = hi[k] - lo[k]; c[k] = s.weighted({2, 1, 1}) == 0 ? lo[k] + L * s.unit() : s.chance(1, 2) ? lo[k] - L * s.real(0.1, 3) : hi[k] + L * s.real(0.1, 3); x[k] = lo[k] + L * s.real(0.2, 0.8); want[k] = std::clamp(c[k], lo[k], hi[k]); free = free && want[k] == c[k]; }
    bool grad = s.chance(1, 2); int which = s.in(0, 1); auto x0 = x; double f0 = 0, m; s << (grad ? "with" : "without") << " gradient " << which << " box " << show(lo) << show(hi) << " bottom " << show(c) << " weights " << show(w) << " from " << show(x); for (size_t k = 0; k < n; k++) f0 += w[k] * (x[k] - c[k]) * (x[k] - c[k]);
    auto bowl = [&](const std::vector<double> &y) { double r = 0; for (size_t k = 0; k < n; k++) r += w[k] * (y[k] - c[k]) * (y[k] - c[k]); return r; };
    try
    {
        if (grad) { auto f = [&](const std::vector<double> &y) { std::vector<double> r(n); for (size_t k = 0; k < n; k++) r[k] = std::sqrt(w[k]) * (y[k] - c[k]); return r; }; auto g = [&](const std::vector<double> &y, const std::vector<double> &r) { std::vector<double> d(n); for (size_t k = 0; k < n; k++) d[k] = 2 * r[k] * std::sqrt(w[k]); return d; }; m = gbs::solve_D_nlop(f, g, x, lo, hi, 1e-9, which ? nlopt::LD_LBFGS : nlopt::LD_MMA); }
        else m = gbs::solve_N_nlop(bowl, x, lo, hi, 1e-8, which ? nlopt::LN_COBYLA : nlopt::LN_SBPLX);
    }
    catch (nlopt::roundoff_limited &) { s.label("roundoff"); return; } catch (std::runtime_error &e) { s.label("gave up"); return; }
    for (size_t k = 0; k < n; k++) REQUIRE_MSG(x[k] >= lo[k] - 1e-12 && x[k] <= hi[k] + 1e-12, "coordinate " << k << " left the box: " << x[k]);
    REQUIRE_MSG(std::abs(m - bowl(x)) <= 1e-12 * (1 + f0), "value " << m << " is not that of the point " << show(x)); REQUIRE_MSG(m <= f0 * (1 + 1e-12) + 1e-12, "went uphill");
    double fb = bowl(want), big = 0; for (size_t k = 0; k < n; k++) big += w[k] * (hi[k] - lo[k]) * (hi[k] - lo[k]); REQUIRE_MSG(m <= fb + 0.5 * (f0 - fb) + 0.1 * big, "stopped at " << show(x) << " where the bowl is " << m << ", it is " << fb << " at " << show(want)); s.nontrivial(!free);
}
// the gradients given to a quasi-Newton solver are those of the distance: from several starts it ends at a local optimum, and seldom gives up
PBT_ARM(gradient, 300, 9000)
{
    int kind = s.in(0, 3); auto al = nlopt::LD_LBFGS; double tx = 3e-4;
    auto a = tame<3, false>(s, 2, 4, 1), b = tame<3, false>(s, 2, 4, 1); for (auto &x : b.P) { std::swap(x[0], x[1]); x[0] = -x[0]; for (int k = 0; k < 3; k++) x[k] += 0.5 * s.sym(a.scale()); }
    auto g = gsrf<false>(s, 2, 3); DISCARD_IF(g.U.has_multiple() || g.V.has_multiple()); auto A = a.make(), B = b.make(); auto S = g.make();
    double al_ = a.K.lo(), ah = a.K.hi(), bl = b.K.lo(), bh = b.K.hi(), sc; std::array<double, 3> P; for (auto &x : P) x = s.sym(2);
    s << "kind " << kind << " curves p=" << a.K.p << "," << b.K.p << " poles=" << showp(a.P, 6) << showp(b.P, 6) << " surface p=" << g.U.p << "," << g.V.p << " poles=" << showp(g.P, 6) << " point " << show(P);
    auto sq = [](const std::array<double, 3> &p, const std::array<double, 3> &q) { double d = dist(p, q); return d * d; };
    int failed = 0; const int starts = 8;
    for (int q = 0; q < starts; q++)
    {
        double u0 = al_ + (ah - al_) * s.real(0.2, 0.8), v0 = bl + (bh - bl) * s.real(0.2, 0.8), x0 = s.real(0.2, 0.8), y0 = s.real(0.2, 0.8); s << " from " << u0 << "," << v0 << "," << x0 << "," << y0;
        std::function<double(const std::vector<double> &)> D; std::vector<double> r, lo, hi, at;
        try
        {
            if (kind == 0) { D = [&](const std::vector<double> &x) { return sq(a.val(x[0]), P); }; at = {u0}; lo = {al_}; hi = {ah}; sc = D(at) + a.scale() * a.scale(); auto z = gbs::extrema_curve_point<double, 3>(A, P, u0, tx, al); r = {z[0]}; }
            if (kind == 1) { D = [&](const std::vector<double> &x) { return sq(a.val(x[0]), b.val(x[1])); }; at = {u0, v0}; lo = {al_, bl}; hi = {ah, bh}; sc = D(at) + a.scale() * a.scale(); auto z = gbs::extrema_curve_curve<double, 3>(A, B, u0, v0, tx, al); r = {z[0], z[1]}; }
            if (kind == 2) { D = [&](const std::vector<double> &x) { return sq(g.val(x[0], x[1]), P); }; at = {x0, y0}; lo = {0, 0}; hi = {1, 1}; sc = D(at) + g.scale() * g.scale(); auto z = gbs::extrema_surf_pnt<double, 3>(S, P, x0, y0, tx, al); r = {z[0], z[1]}; }
            if (kind == 3) { D = [&](const std::vector<double> &x) { return sq(g.val(x[0], x[1]), a.val(x[2])); }; at = {x0, y0, u0}; lo = {0, 0, al_}; hi = {1, 1, ah}; sc = D(at) + g.scale() * g.scale(); auto z = gbs::extrema_surf_curve<double, 3>(S, A, u0, x0, y0, tx, al); r = {z[0], z[1], z[2]}; }
        }
        catch (std::runtime_error &) { failed++; continue; } // nlopt's own failures
        stationary(D, r, lo, hi, D(at), sc);
    }
    REQUIRE_MSG(failed <= starts / 2, "the solver gave up from " << failed << " of " << starts << " starts: gradient of another function?");
    s.nontrivial(kind > 0);
}
// lines of the plane
PBT_ARM(line_line, 500, 20000)
{
    double m = std::exp(s.real(-3, 3)); std::array<double, 2> P{s.sym(10 * m), s.sym(10 * m)}, Q{s.sym(10 * m), s.sym(10 * m)}; double t1 = s.real(0, 6.28), t2 = t1 + s.one_of({-1., 1.}) * s.real(0.05, 1.57);
    double l1 = s.real(0.1, 5), l2 = s.real(0.1, 5); gbs::Line<double, 2> L1{P, std::array<double, 2>{P[0] + l1 * std::cos(t1), P[1] + l1 * std::sin(t1)}}, L2{Q, std::array<double, 2>{Q[0] + l2 * std::cos(t2), Q[1] + l2 * std::sin(t2)}};
    s << "lines " << show(P) << " " << t1 << " and " << show(Q) << " " << t2;
    auto [u, v] = gbs::extrema_curve_curve<double>(L1, L2); auto a = L1(u), b = L2(v); double tol = 1e-11 * (1 + m * 400);
    near<2>(a, b, tol, "lines do not meet", u); double d1 = -std::sin(t1) * (a[0] - P[0]) + std::cos(t1) * (a[1] - P[1]), d2 = -std::sin(t2) * (a[0] - Q[0]) + std::cos(t2) * (a[1] - Q[1]);
    REQUIRE_MSG(std::abs(d1) <= tol && std::abs(d2) <= tol, "meeting point " << show(a) << " off the lines by " << d1 << "," << d2); s.nontrivial();
}
// coordinate solving on curves monotone in that coordinate
PBT_ARM(coordinate, 300, 10000)
{
    auto c = tame<3, false>(s, 2, 4, 3); DISCARD_IF(c.K.has_multiple()); size_t ic = s.draw(3); if (ic) for (auto &x : c.P) std::swap(x[0], x[ic]); if (s.chance(1, 2)) for (auto &x : c.P) x[ic] = -x[ic];
    auto C = c.make(); double t = c.K.lo() + (c.K.hi() - c.K.lo()) * s.real(0.01, 0.99), X = c.val(t)[ic]; s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8) << " coordinate " << ic << " = " << X;
    std::optional<double> u0; if (s.chance(1, 2)) u0 = c.K.lo() + (c.K.hi() - c.K.lo()) * s.unit();
    double u = gbs::solve_coordinate<double, 3>(C, ic, X, u0); REQUIRE(u >= c.K.lo() && u <= c.K.hi());
    REQUIRE_MSG(std::abs(c.val(u)[ic] - X) <= 1e-4 * c.scale(), "solution " << u << " has " << c.val(u)[ic]);
    try { gbs::solve_coordinate<double, 3>(C, 3 + s.draw(3), X); REQUIRE(!"coordinate index out of range accepted"); } catch (std::out_of_range &) { }
    s.nontrivial();
}
// closest of several curves, deviation of points from a curve
PBT_ARM(closest, 100, 3000)
{
    int n = s.in(2, 5); std::vector<Crv<2, false>> M; std::vector<gbs::BSCurve<double, 2>> L; std::vector<std::shared_ptr<gbs::Curve<double, 2>>> Lp; std::array<double, 2> P{s.sym(4), s.sym(4)}; std::vector<double> D;
    for (int i = 0; i < n; i++) { auto c = tame<2, false>(s); std::array<double, 2> t{s.sym(4), s.sym(4)}; for (auto &x : c.P) { if (i % 2) std::swap(x[0], x[1]); for (int k = 0; k < 2; k++) x[k] += t[k]; } M.push_back(c); L.push_back(c.make()); Lp.push_back(std::make_shared<gbs::BSCurve<double, 2>>(L.back())); double d = 1e300; for (int j = 0; j <= 300; j++) d = std::min(d, dist(c.val(c.K.lo() + (c.K.hi() - c.K.lo()) * j / 300), P)); D.push_back(d); }
    s << n << " curves, point " << show(P) << " distances " << show(D); auto S = D; std::sort(S.begin(), S.end()); DISCARD_IF(S[1] - S[0] < 0.15);
    auto it = gbs::closest_curve<double, 2>(P, L.begin(), L.end()); REQUIRE_MSG(it - L.begin() == std::min_element(D.begin(), D.end()) - D.begin(), "curve " << it - L.begin());
    auto ip = gbs::closest_p_curve<double, 2>(P, Lp.begin(), Lp.end()); REQUIRE(ip - Lp.begin() == it - L.begin());
    // points at known distances along the normals of a gentle curve
    auto &c = M[0]; std::vector<std::array<double, 2>> pts; double dm = 0, da = 0, qa = 0; int np = s.in(1, 12); double sc = c.scale();
    bool ok = c.K.p >= 2 && !c.K.has_multiple(); double off = 1e-3 * sc;
    { auto A = c.val(c.K.lo()), B = c.val(c.K.hi()); for (int i = 0; i <= 40 && ok; i++) { auto t = c.val(c.K.lo() + (c.K.hi() - c.K.lo()) * i / 40., 1); if (t[0] * (B[0] - A[0]) + t[1] * (B[1] - A[1]) < 0.7 * mag(t) * dist(A, B)) ok = false; } } // the searches are local, from point to point
    for (int i = 0; i < np && ok; i++) { double u = c.K.lo() + (c.K.hi() - c.K.lo()) * (i + 0.5) / np; auto x = c.val(u), t = c.val(u, 1), cu = c.val(u, 2); double q = mag(t); double kap = std::abs(t[0] * cu[1] - t[1] * cu[0]) / q / q / q; if (kap * off > 0.2 || q < 1e-2 * sc) { ok = false; break; } double d = off * s.real(0.2, 1) * (s.chance(1, 2) ? -1 : 1); pts.push_back({x[0] - d * t[1] / q, x[1] + d * t[0] / q}); dm = std::max(dm, std::abs(d)); da += std::abs(d); qa += d * d; }
    if (ok) { da /= np; qa /= np; auto [um, m, a] = gbs::dev_from_points<double, 2>(pts, L[0]); double tol = 0.1; REQUIRE_MSG((std::abs(m - dm) <= tol * dm && std::abs(a - da) <= tol * da) || (std::abs(m - dm * dm) <= tol * dm * dm && std::abs(a - qa) <= tol * qa), "max " << m << " avg " << a << ", distances max " << dm << " avg " << da); s.label("deviation"); }
    s.nontrivial();
}

// the ball that touches two straight sides: its centre is as far from both contacts, on both normals
PBT_ARM(rolling_ball, 200, 6000)
{
    double a = s.sym(3.1), w = s.real(0.4, 1.25), L1 = s.real(1, 4), L2 = L1 * s.real(0.7, 1.4), u1 = s.real(0.25, 0.65), x0 = s.sym(3), y0 = s.sym(3); if (s.chance(1, 2)) w = -w; bool par = s.chance(1, 4); double gap = s.one_of({-1., 1.}) * s.real(0.2, 2);
    auto end = [&](double t, double L) { return std::array<double, 2>{x0 + L * std::cos(t), y0 + L * std::sin(t)}; }; gbs::points_vector<double, 2> p1{{x0, y0}, end(a, L1)}, p2{{x0, y0}, end(a + w, L2)};
    if (par) { p2 = p1; for (auto &p : p2) { p[0] -= gap * std::sin(a); p[1] += gap * std::cos(a); } L2 = L1; }
    gbs::BSCurve<double, 2> c1(p1, {0., 0., 1., 1.}, 1), c2(p2, {0., 0., 1., 1.}, 1); double want = u1 * L1 / L2; DISCARD_IF(want > 0.93); s << (par ? "parallel" : "crossing") << " sides, angle " << w << " lengths " << L1 << "," << L2 << " u1=" << u1;
    auto [u2, ctr, flag] = gbs::compute_rolling_ball<double>(c1, c2, u1); REQUIRE(u2 >= 0 && u2 <= 1 && flag == par); auto a1 = c1(u1), a2 = c2(u2); double d1 = dist(ctr, a1), d2 = dist(ctr, a2); REQUIRE_MSG(std::abs(u2 - want) < 2e-3, "contact " << u2 << " instead of " << want);
    REQUIRE_MSG(std::abs(d1 - d2) < 1e-2 * (1 + L1), "centre at " << d1 << " and " << d2 << " from its contacts"); auto t = c1(0., 1); REQUIRE_MSG(std::abs((ctr[0] - a1[0]) * t[0] + (ctr[1] - a1[1]) * t[1]) < 1e-3 * (1 + L1 * L1), "centre off the normal"); s.nontrivial(!par);
}
