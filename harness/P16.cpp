#include "gen.h"
#include "shapes.h"
#include <functional>
#include <memory>
#include <numbers>
#include <gbs/bscanalysis.h>
#include <gbs/curveextended.h>
#include <gbs/curvereparametrized.h>
#include <gbs/curveReversed.h>
#include <gbs/curveoffset.h>
#include <gbs/curvecircle.h>
#include <gbs/curveonsurface.h>
#include <gbs/surfaceofrevolution.h>
#include <gbs/offsets.h>
#include <gbs/curvescheck.h>
const char *pbt_property = "P16";
const char *pbt_rule = "random derived curves and surfaces (trimmed, reversed, composite, extended, reparametrised, on a surface, 2D and 3D offset, circle, line, revolution), alone and nested; oracle: the defining formula differentiated by truncated Taylor series over the quad-precision reference of the underlying B-splines; non-trivial: derivative of order >= 1 or nesting depth >= 2";
template <size_t N> using Ptr = std::shared_ptr<gbs::Curve<double, N>>;
// model of a curve: derivatives 0..3 at a parameter; NaN where not defined
template <size_t N> using Jet = std::array<std::array<long double, N>, 4>;
template <size_t N> struct Mod { Ptr<N> c; std::function<Jet<N>(double)> f; double lo, hi; std::vector<double> brk; double mag; std::string what; int orders; };
template <size_t N, bool rat> static Jet<N> jet(const Crv<N, rat> &c, double u) { Jet<N> j; auto v = c.at(u, 3); for (int d = 0; d < 4; d++) for (size_t k = 0; k < N; k++) j[d][k] = (long double)(v[d].v[k]); return j; }
// curve advancing along the first axis: never stationary
template <size_t N, bool rat> static Crv<N, rat> adv(Src &s, int pmin, int pmax)
{
    Crv<N, rat> c; size_t p = s.in(pmin, pmax); KOpt o; o.max_spans = 4; o.ratio = 3; o.max_mult = std::max<int>(1, int(p) - 1); o.unit = s.chance(1, 2); c.K = knots<double>(s, p, o); if (std::abs(c.K.lo()) > 5 || c.K.hi() - c.K.lo() > 5) { double lo = c.K.lo(), L = c.K.hi() - lo; for (auto &x : c.K.flat) x = 1 + 2 * (x - lo) / L; for (auto &x : c.K.brk) x = 1 + 2 * (x - lo) / L; }
    auto r = s.bulk(); size_t n = c.K.n(); c.P.resize(n); for (size_t i = 0; i < n; i++) { double g = 0; for (size_t j = 1; j <= p; j++) g += c.K.flat[i + j]; g = (g / p - c.K.lo()) / (c.K.hi() - c.K.lo()); c.P[i][0] = 6 * g + 1; for (size_t k = 1; k < N; k++) c.P[i][k] = r.range(-1, 1); if constexpr (rat) { double w = r.range(0.85, 1.2); for (size_t k = 0; k < N; k++) c.P[i][k] *= w; c.P[i][N] = w; } } return c;
}
template <size_t N> static Mod<N> leaf(Src &s, bool regular)
{
    auto mk = [&](auto c) { Mod<N> m; m.c = std::make_shared<std::decay_t<decltype(c.make())>>(c.make()); m.f = [c](double u) { return jet(c, u); }; m.lo = c.K.lo(); m.hi = c.K.hi(); m.brk = c.K.brk; m.mag = c.scale() / std::pow(c.K.minspan(), 2) * (c.K.p + 1) * (c.K.p + 1); m.what = std::string("spline") + std::to_string(c.K.p); m.orders = 3; return m; };
    if (s.chance(1, 3)) return regular ? mk(adv<N, true>(s, 2, 4)) : mk(gcrv<N, true>(s, 1, 4, 3)); return regular ? mk(adv<N, false>(s, 2, 4)) : mk(gcrv<N, false>(s, 1, 4, 3));
}
static double away(Src &s, const std::vector<double> &brk, double lo, double hi) { for (int k = 0; k < 20; k++) { double u = lo + (hi - lo) * (0.01 + 0.98 * s.unit()); bool ok = true; for (auto b : brk) if (std::abs(u - b) < 1e-3 * (hi - lo)) ok = false; if (ok) return u; } throw pbt::Discard{}; }
// law mapping [a,b] increasingly onto [lo,hi]
struct Law { Crv<1, false> c; gbs::BSCfunction<double> f; };
static Law law(Src &s, double lo, double hi)
{
    Crv<1, false> c; size_t p = s.in(1, 3); KOpt o; o.max_spans = 3; o.ratio = 3; o.max_mult = std::max<int>(1, int(p) - 1); o.unit = true; c.K = knots<double>(s, p, o); double a = s.sym(2), L = s.real(0.5, 3); for (auto &x : c.K.flat) x = a + L * x; for (auto &x : c.K.brk) x = a + L * x; size_t n = c.K.n(); c.P.resize(n); auto r = s.bulk(); double acc = 0; std::vector<double> w(n); for (size_t i = 1; i < n; i++) { acc += r.range(0.5, 1.5); w[i] = acc; } for (size_t i = 0; i < n; i++) c.P[i][0] = i + 1 == n ? hi : lo + (hi - lo) * w[i] / acc; return Law{c, gbs::BSCfunction<double>(c.make())};
}
template <size_t N> static Mod<N> derive(Src &s, Mod<N> m, int depth, bool regular);
template <size_t N> static Mod<N> node(Src &s, int depth, bool regular) { auto m = leaf<N>(s, regular); int d = s.in(0, depth); for (int i = 0; i < d; i++) m = derive<N>(s, m, depth - 1, regular); return m; }
template <size_t N> static Mod<N> derive(Src &s, Mod<N> m, int depth, bool regular)
{
    Mod<N> r = m;
    switch (s.in(0, 4))
    {
    case 0: { double a = m.lo + (m.hi - m.lo) * s.real(0, 0.4), b = m.hi - (m.hi - m.lo) * s.real(0, 0.4); r.c = std::make_shared<gbs::CurveTrimmed<double, N>>(m.c, a, b); r.lo = a; r.hi = b; r.what = "trim(" + m.what + ")"; break; }
    case 1: { double t = m.lo + m.hi; auto f = m.f; r.c = std::make_shared<gbs::CurveReversed<double, N>>(m.c); r.f = [f, t](double u) { auto j = f(t - u); for (size_t k = 0; k < N; k++) { j[1][k] = -j[1][k]; j[3][k] = -j[3][k]; } return j; }; for (auto &b : r.brk) b = t - b; r.what = "reversed(" + m.what + ")"; break; }
    case 2: { auto L = law(s, m.lo, m.hi); auto f = m.f; auto c = L.c; r.c = std::make_shared<gbs::CurveReparametrized<double, N>>(m.c, L.f); r.lo = c.K.lo(); r.hi = c.K.hi(); r.orders = std::min(2, m.orders);
        r.f = [f, c](double u) { auto g = jet(c, u); auto j = f(double(g[0][0])); Jet<N> o; for (size_t k = 0; k < N; k++) { o[0][k] = j[0][k]; o[1][k] = j[1][k] * g[1][0]; o[2][k] = j[2][k] * g[1][0] * g[1][0] + j[1][k] * g[2][0]; o[3][k] = NAN; } return o; };
        std::vector<double> nb = c.K.brk; for (auto b : m.brk) { double x = c.K.lo(), y = c.K.hi(); for (int i = 0; i < 60; i++) { double z = (x + y) / 2; (double(jet(c, z)[0][0]) < b ? x : y) = z; } nb.push_back(x); } r.brk = nb; double w = (m.hi - m.lo) / (r.hi - r.lo) / c.K.minspan(); r.mag *= 1 + 40 * w * w; r.what = "reparam(" + m.what + ")"; break; }
    case 3: { std::vector<Mod<N>> l{m}; int n = s.in(0, 2); for (int i = 0; i < n; i++) l.push_back(node<N>(s, depth - 1 > 0 ? depth - 1 : 0, regular)); std::vector<Ptr<N>> c; std::vector<double> st{m.lo}; r.brk.clear(); r.what = "composite("; for (auto &x : l) { for (auto b : x.brk) r.brk.push_back(b - x.lo + st.back()); r.brk.push_back(st.back()); c.push_back(x.c); st.push_back(st.back() + (x.hi - x.lo)); r.mag = std::max(r.mag, x.mag); r.orders = std::min(r.orders, x.orders); r.what += x.what + ","; } r.what += ")";
        r.c = std::make_shared<gbs::CurveComposite<double, N>>(c); r.lo = st.front(); r.hi = st.back(); r.f = [l, st](double u) { size_t i = 0; while (i + 1 < l.size() && u >= st[i + 1]) i++; return l[i].f(u - st[i] + l[i].lo); }; break; }
    default: { bool cl = s.chance(1, 2); auto e = std::make_shared<gbs::CurveExtended<double, N>>(m.c, cl); double L = m.hi - m.lo, a = m.lo - L * s.real(0, 0.5), b = m.hi + L * s.real(0, 0.5); r.c = std::make_shared<gbs::CurveTrimmed<double, N>>(e, a, b); auto f = m.f; double lo = m.lo, hi = m.hi; r.lo = a; r.hi = b; r.brk.push_back(lo); r.brk.push_back(hi);
        r.f = [f, lo, hi, cl](double u) { if (u >= lo && u <= hi) return f(u); double e = u < lo ? lo : hi; auto j = f(e); if (!cl) for (size_t k = 0; k < N; k++) { j[0][k] += j[1][k] * (u - e); j[2][k] = j[3][k] = 0; } return j; }; r.what = std::string(cl ? "clamped(" : "extended(") + m.what + ")"; break; }
    }
    return r;
}
template <size_t N> static void agree(const Mod<N> &m, double u, int dmax)
{
    auto j = m.f(u); for (int d = 0; d <= std::min(dmax, m.orders); d++) { auto v = m.c->value(u, d); double t = 1e-11 * m.mag * std::pow(30., d); for (size_t k = 0; k < N; k++) REQUIRE_MSG(std::abs(double(j[d][k] - v[k])) <= t, m.what << " derivative " << d << " at " << u << ": " << v[k] << " instead of " << double(j[d][k])); }
}
template <size_t N> static void refused(const Mod<N> &m, double u) { bool t = false; try { m.c->value(u); } catch (gbs::OutOfBoundsEval<double> &) { t = true; } REQUIRE_MSG(t, m.what << " accepts " << u << " out of [" << m.lo << "," << m.hi << "]"); }
template <size_t N> static void nested(Src &s)
{
    auto m = leaf<N>(s, false); int depth = s.in(1, 3); for (int i = 0; i < depth; i++) m = derive<N>(s, m, 1, false); s << m.what; DISCARD_IF(m.mag > 1e9);
    auto b = m.c->bounds(); double L = m.hi - m.lo; REQUIRE_MSG(std::abs(b[0] - m.lo) <= 1e-13 * (1 + std::abs(m.lo)) && std::abs(b[1] - m.hi) <= 1e-13 * (1 + std::abs(m.hi)), m.what << " bounds " << b[0] << "," << b[1] << " instead of " << m.lo << "," << m.hi);
    for (int k = 0; k < 4; k++) agree(m, away(s, m.brk, m.lo, m.hi), 2);
    // ends
    auto B = m.c->begin(), E = m.c->end(); auto jb = m.f(b[0]), je = m.f(b[1]); bool jump = m.what.find("composite") != std::string::npos; for (size_t k = 0; k < N && !jump; k++) REQUIRE(std::abs(double(jb[0][k]) - B[k]) <= 1e-10 * m.mag && std::abs(double(je[0][k]) - E[k]) <= 1e-10 * m.mag);
    if (m.what.compare(0, 8, "reversed") && m.what.compare(0, 8, "reparam(")) { refused(m, m.hi + L * (0.01 + s.unit())); refused(m, m.lo - L * (0.01 + s.unit())); }
    // generic services work on any curve
    std::vector<double> u{away(s, m.brk, m.lo, m.hi), away(s, m.brk, m.lo, m.hi)}; REQUIRE((m.c->values(u)[1] == m.c->value(u[1]) && gbs::make_points<double, N>(*m.c, u)[0] == m.c->value(u[0]))); std::array<double, N> K[3]; m.c->derivatives(u[0], 2, K); for (int d = 0; d < 3; d++) REQUIRE(K[d] == m.c->value(u[0], d));
    s.label(m.what.substr(0, m.what.find('('))); s.nontrivial();
}
PBT_ARM(nested_d1, 300, 9000) { nested<1>(s); }
PBT_ARM(nested_d2, 400, 9000) { nested<2>(s); }
PBT_ARM(nested_d3, 400, 9000) { nested<3>(s); }
PBT_ARM(composite_joints, 300, 9000)
{
    std::vector<Mod<2>> l; std::vector<Ptr<2>> c; int n = s.in(1, 6); for (int i = 0; i < n; i++) { l.push_back(leaf<2>(s, false)); c.push_back(l.back().c); } gbs::CurveComposite<double, 2> C(c); double u = l[0].lo; s << n << " curves";
    for (int i = 0; i < n; i++) { auto v = C.value(u + (i ? 1e-9 : 0)), e = l[i].c->value(l[i].lo + (i ? 1e-9 : 0)); for (int k = 0; k < 2; k++) REQUIRE_MSG(std::abs(v[k] - e[k]) < 1e-9 * l[i].mag, "start of " << i); double w = u + (l[i].hi - l[i].lo); auto v2 = C.value(w - 1e-9), e2 = l[i].c->value(l[i].hi - 1e-9); for (int k = 0; k < 2; k++) REQUIRE_MSG(std::abs(v2[k] - e2[k]) < 1e-9 * l[i].mag, "end of " << i); if (i + 1 < n) { auto a = C.value(w), p = l[i].c->value(l[i].hi), q = l[i + 1].c->value(l[i + 1].lo); double da = 0, db = 0; for (int k = 0; k < 2; k++) { da = std::max(da, std::abs(a[k] - p[k])); db = std::max(db, std::abs(a[k] - q[k])); } REQUIRE_MSG(std::min(da, db) < 1e-9 * (l[i].mag + l[i + 1].mag), "joint " << i); } u = w; }
    REQUIRE(std::abs(C.bounds()[1] - u) < 1e-12 * (1 + std::abs(u)) && C.bounds()[0] == l[0].lo); auto e = C.end(), x = l.back().c->end(); for (int k = 0; k < 2; k++) REQUIRE(std::abs(e[k] - x[k]) < 1e-10 * l.back().mag); REQUIRE(C.curves().size() == size_t(n));
    int t = 0; try { C.value(C.bounds()[1] + 0.5); } catch (gbs::OutOfBoundsCurveEval<double> &) { t++; } try { C.value(C.bounds()[0] - 0.5); } catch (gbs::OutOfBoundsCurveEval<double> &) { t++; } REQUIRE_MSG(t == 2, "outside accepted"); s.nontrivial(n > 1);
}
template <size_t N> static void offset(Src &s)
{
    auto m = node<N>(s, 1, true); DISCARD_IF(m.mag > 1e6); Crv<1, false> f; { KOpt o; o.max_spans = 3; o.ratio = 3; o.unit = true; size_t p = s.in(1, 3); o.max_mult = std::max<int>(1, int(p) - 1); f.K = knots<double>(s, p, o); for (auto *v : {&f.K.flat, &f.K.brk}) for (auto &x : *v) x = m.lo + (m.hi - m.lo) * x; f.K.flat.back(); for (auto &x : f.K.flat) if (x > m.hi || std::abs(x - m.hi) < 1e-12) x = m.hi; f.K.brk.back() = m.hi; f.P = points<double, 1>(s, f.K.n(), 2); }
    gbs::BSCfunction<double> F(f.make()); Ptr<N> C; std::array<double, 3> D{0, 0, 0}; s << "offset of " << m.what;
    if constexpr (N == 2) C = std::make_shared<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(m.c, F); else { D = {s.sym(0.4), s.sym(1), s.one_of({1., -1., 2.}) * s.real(0.5, 1.5)}; auto o = std::make_shared<gbs::CurveOffset3D<double, gbs::BSCfunction<double>>>(m.c, F, D); double n = mag(D); for (auto &x : D) x /= n; for (int k = 0; k < 3; k++) REQUIRE(std::abs(o->direction()[k] - D[k]) < 1e-14); C = o; }
    auto b = C->bounds(); REQUIRE(b == m.c->bounds()); auto brk = m.brk; brk.insert(brk.end(), f.K.brk.begin(), f.K.brk.end());
    for (int q = 0; q < 3; q++)
    {
        double u = away(s, brk, m.lo, m.hi); auto j = m.f(u); auto g = jet(f, u); std::array<long double, N> w[3]; for (int d = 0; d < 3; d++) { auto &a = j[d + 1]; if constexpr (N == 2) w[d] = {-a[1], a[0]}; else w[d] = {D[1] * a[2] - D[2] * a[1], D[2] * a[0] - D[0] * a[2], D[0] * a[1] - D[1] * a[0]}; }
        auto dot = [](auto &a, auto &b) { long double r = 0; for (size_t k = 0; k < N; k++) r += a[k] * b[k]; return r; }; long double r = sqrtl(dot(w[0], w[0])), r1 = dot(w[0], w[1]) / r, r2 = (dot(w[1], w[1]) + dot(w[0], w[2]) - r1 * r1) / r, c1 = sqrtl(dot(j[1], j[1])); if (r < 0.1 * c1 || c1 < 0.05) continue;
        std::array<long double, N> e[3]; long double kap = 1 + sqrtl(dot(j[2], j[2])) / r + (m.orders > 2 ? sqrtl(dot(j[3], j[3])) / r : 0); for (size_t k = 0; k < N; k++) { long double n0 = w[0][k] / r, n1 = (w[1][k] - n0 * r1) / r, n2 = (w[2][k] - 2 * n1 * r1 - n0 * r2) / r; e[0][k] = j[0][k] + n0 * g[0][0]; e[1][k] = j[1][k] + n1 * g[0][0] + n0 * g[1][0]; e[2][k] = j[2][k] + n2 * g[0][0] + 2 * n1 * g[1][0] + n0 * g[2][0]; }
        long double gm = 1 + std::abs((double)g[0][0]) + std::abs((double)g[1][0]) + std::abs((double)g[2][0]);
        for (int d = 0; d < (m.orders > 2 ? 3 : 2); d++) { auto v = C->value(u, d); for (size_t k = 0; k < N; k++) REQUIRE_MSG(std::abs(double(v[k] - e[d][k])) <= 1e-11 * m.mag * std::pow(20., d) * double(gm * (d == 2 ? kap * kap * kap : d ? kap * kap : kap)), s.desc_.str() << " derivative " << d << " at " << u << ": " << v[k] << " instead of " << double(e[d][k])); if (d) s.nontrivial(); }
    }
    bool t = false; try { C->value((m.lo + m.hi) / 2, 3 + s.draw(2)); } catch (std::runtime_error &) { t = true; } REQUIRE(t);
}
PBT_ARM(offset_d2, 400, 9000) { offset<2>(s); }
PBT_ARM(offset_d3, 400, 9000) { offset<3>(s); }
template <bool rat> static void onsurf(Src &s)
{
    auto S = gsrf<rat>(s, 1, 4, false); Crv<2, false> c; { c = gcrv<2, false>(s, 1, 4, 3); } double m[2] = {1e9, 1e9}, M[2] = {-1e9, -1e9}; for (auto &x : c.P) for (int k = 0; k < 2; k++) { m[k] = std::min(m[k], x[k]); M[k] = std::max(M[k], x[k]); } for (auto &x : c.P) for (int k = 0; k < 2; k++) { auto &K = k ? S.V : S.U; double t = M[k] > m[k] ? (x[k] - m[k]) / (M[k] - m[k]) : 0.5; x[k] = K.lo() + (K.hi() - K.lo()) * (0.02 + 0.96 * t); }
    gbs::CurveOnSurface<double, 3> C(std::make_shared<gbs::BSCurve<double, 2>>(c.make()), std::make_shared<typename Srf<rat>::S>(S.make())); s << "curve p=" << c.K.p << " knots " << show(c.K.flat) << " poles " << showp(c.P, 6) << " on surface pu=" << S.U.p << " pv=" << S.V.p; REQUIRE(C.bounds()[0] == c.K.lo() && C.bounds()[1] == c.K.hi());
    for (int q = 0; q < 3; q++)
    {
        double t = away(s, c.K.brk, c.K.lo(), c.K.hi()); auto p = c.val(t), p1 = c.val(t, 1), p2 = c.val(t, 2); auto near_knot = [&](const Knots<double> &K, double x) { for (auto b : K.brk) if (std::abs(x - b) < 1e-5) return true; return false; }; if (near_knot(S.U, p[0]) || near_knot(S.V, p[1])) continue;
        auto d = [&](int a, int b) { return S.val(p[0], p[1], a, b); }; auto s0 = d(0, 0), su = d(1, 0), sv = d(0, 1), suu = d(2, 0), suv = d(1, 1), svv = d(0, 2); auto v0 = C.value(t), v1 = C.value(t, 1), v2 = C.value(t, 2); double sc = S.scale() * 1e-9 / std::pow(std::min(S.U.minspan(), S.V.minspan()), 2), g = 1 + mag(p1) * mag(p1) + mag(p2) + c.scale() / std::pow(c.K.minspan(), 2) * 30;
        for (int k = 0; k < 3; k++) { double e1 = p1[0] * su[k] + p1[1] * sv[k], e2 = p1[0] * p1[0] * suu[k] + 2 * p1[0] * p1[1] * suv[k] + p1[1] * p1[1] * svv[k] + p2[0] * su[k] + p2[1] * sv[k]; REQUIRE_MSG(std::abs(v0[k] - s0[k]) <= sc && std::abs(v1[k] - e1) <= sc * g, "value or tangent at " << t << ": " << v1[k] << " instead of " << e1); REQUIRE_MSG(std::abs(v2[k] - e2) <= sc * g, "second derivative at " << t << ": " << v2[k] << " instead of " << e2); }
        s.nontrivial();
    }
    bool t = false; try { C.value((c.K.lo() + c.K.hi()) / 2, 3); } catch (std::runtime_error &) { t = true; } REQUIRE(t); t = false; try { C.value(c.K.hi() + 1); } catch (gbs::OutOfBoundsEval<double> &) { t = true; } REQUIRE(t);
}
PBT_ARM(on_surface, 300, 9000) { onsurf<false>(s); }
PBT_ARM(on_rational_surface, 200, 6000) { onsurf<true>(s); }
static std::array<double, 3> dir3(Src &s) { if (s.chance(1, 3)) { std::array<double, 3> a{}; a[s.draw(3)] = s.one_of({1., -1., 2.5}); return a; } std::array<double, 3> a; double n; do { for (auto &x : a) x = s.sym(2); n = mag(a); if (n < 0.3) a[0] += 1; } while (mag(a) < 0.3); return a; }
static std::array<double, 3> crs(const std::array<double, 3> &a, const std::array<double, 3> &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double dt(const std::array<double, 3> &a, const std::array<double, 3> &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
PBT_ARM(circle_line, 500, 12000)
{
    double r = s.real(0.1, 5), u = s.real(-7, 7), r2 = s.real(0.1, 5); auto z = dir3(s); std::array<double, 3> O{s.sym(5), s.sym(5), s.sym(5)}; double nz = mag(z); size_t d = s.draw(6); const double pi = std::numbers::pi; double ph = u + d * pi / 2;
    s << "r=" << r << " z=" << show(z) << " u=" << u << " d=" << d; gbs::Circle3d<double> c(r, gbs::ax1<double, 3>{{O, z}}); auto x = dir3(s); { double p = dt(x, z) / nz / nz; for (int k = 0; k < 3; k++) x[k] -= p * z[k]; } bool okx = mag(x) > 0.1;
    auto look = [&](gbs::Circle3d<double> &c, double r) { auto X = c.getX(); REQUIRE_MSG(std::abs(mag(X) - r) < 1e-12 * (1 + r) && std::abs(dt(X, z)) < 1e-12 * nz * (1 + r), "start vector " << show(X)); auto Y = crs(z, X); auto v = c.value(u, d); for (int k = 0; k < 3; k++) REQUIRE_MSG(std::abs(v[k] - (d ? 0 : O[k]) - std::cos(ph) * X[k] - std::sin(ph) * Y[k] / nz) < 1e-11 * (1 + r + mag(O)), "value " << show(v)); auto a = c.value(0.), b = c.value(2 * pi); REQUIRE(dist(a, b) < 1e-12 * (1 + r)); REQUIRE(c.getR() == r && c.getC() == O && c.getZ() == z && c.bounds()[0] == 0 && std::abs(c.bounds()[1] - 2 * pi) < 1e-15); };
    look(c, r); if (okx) { gbs::Circle3d<double> e(r, gbs::ax2<double, 3>{{O, z, x}}); look(e, r); double p = dt(e.getX(), x); REQUIRE(p > 0.999 * r * mag(x)); e.setR(r2); look(e, r2); }
    c.setR(r2); look(c, r2); gbs::Circle2d<double> g(r, {O[0], O[1]}); for (int pass = 0; pass < 2; pass++) { double R = pass ? r2 : r; auto v = g.value(u, d); REQUIRE(std::abs(v[0] - (d ? 0 : O[0]) - R * std::cos(ph)) < 1e-11 * (6 + R) && std::abs(v[1] - (d ? 0 : O[1]) - R * std::sin(ph)) < 1e-11 * (6 + R)); REQUIRE(g.getR() == R); g.setR(r2); }
    // line
    auto q = dir3(s); std::array<double, 3> B; for (int k = 0; k < 3; k++) B[k] = O[k] + q[k]; gbs::Line<double, 3> L(O, B), L2(gbs::ax1<double, 3>{{O, q}}); double n = mag(q); for (auto *l : {&L, &L2}) { auto v = l->value(u), t = l->value(u, 1), h = l->value(u, 2 + s.draw(3)); for (int k = 0; k < 3; k++) REQUIRE(std::abs(v[k] - O[k] - u * q[k] / n) < 1e-11 && std::abs(t[k] - q[k] / n) < 1e-12 && h[k] == 0); REQUIRE(dist(l->value(n), B) < 1e-12 * (1 + mag(B))); REQUIRE_MSG(l->bounds()[0] <= u && u <= l->bounds()[1] && l->bounds()[0] <= -1e6 && l->bounds()[1] >= 1e6, "bounds of a line"); }
    s.nontrivial();
}
PBT_ARM(revolution, 400, 10000)
{
    auto m = node<2>(s, 1, false); DISCARD_IF(m.mag > 1e6); auto z = dir3(s), x = dir3(s); double nz = mag(z); { double p = dt(x, z) / nz / nz; for (int k = 0; k < 3; k++) x[k] -= p * z[k]; } DISCARD_IF(mag(x) < 0.1); std::array<double, 3> O{0, 0, 0}; if (s.chance(3, 4)) O = {s.sym(5), s.sym(5), s.sym(5)};
    double a = s.real(-1, 3), b = a + s.real(0.2, 6); bool def = s.chance(1, 4); if (def) { a = 0; b = 2 * std::numbers::pi; } s << "revolution of " << m.what << " about " << show(O) << " " << show(z); std::shared_ptr<gbs::SurfaceOfRevolution<double>> S; gbs::ax2<double, 3> ax{{O, z, x}}; S = def ? std::make_shared<gbs::SurfaceOfRevolution<double>>(m.c, ax) : std::make_shared<gbs::SurfaceOfRevolution<double>>(m.c, ax, a, b);
    auto B = S->bounds(); auto cb = m.c->bounds(); REQUIRE(B[0] == cb[0] && B[1] == cb[1] && B[2] == a && B[3] == b); double nx = mag(x); std::array<double, 3> Z, X; for (int k = 0; k < 3; k++) { Z[k] = z[k] / nz; X[k] = x[k] / nx; } auto Y = crs(Z, X);
    for (int q = 0; q < 3; q++)
    {
        double u = away(s, m.brk, m.lo, m.hi), v = a + (b - a) * s.unit(); int du = s.in(0, std::min(2, m.orders)), dv = s.in(0, 4); auto j = m.f(u); double h = double(j[du][0]), r = double(j[du][1]), ph = v + dv * std::numbers::pi / 2, t = 1e-11 * m.mag * std::pow(30., du) + 1e-12 * mag(O); auto P = S->value(u, v, du, dv);
        for (int k = 0; k < 3; k++) { double e = (du == 0 && dv == 0 ? O[k] : 0) + (dv == 0 ? h * Z[k] : 0) + r * (std::cos(ph) * X[k] + std::sin(ph) * Y[k]); REQUIRE_MSG(std::abs(P[k] - e) <= t, "derivative (" << du << "," << dv << ") at " << u << "," << v << ": " << P[k] << " instead of " << e); }
    }
    s.nontrivial();
}
// a plane swept at a variable distance: the approximated offset is the offset itself when the distance has the plane's knots
PBT_ARM(surface_offset, 150, 4000)
{
    auto c = gsrf<false>(s, 1, 3, false, 1); std::array<double, 3> O{s.sym(3), s.sym(3), s.sym(3)}, A = dir3(s), B = dir3(s), n = crs(A, B); double nn = mag(n); DISCARD_IF(nn < 0.2 * mag(A) * mag(B)); for (auto &x : n) x /= nn;
    auto gre = [](const Knots<double> &k) { std::vector<double> g; for (size_t i = 0; i < k.n(); i++) { double x = 0; for (size_t j = 1; j <= k.p; j++) x += k.flat[i + j]; g.push_back(x / k.p); } return g; };
    auto gu = gre(c.U), gv = gre(c.V); size_t nu = c.U.n(), nv = c.V.n(); auto f = c; std::vector<std::array<double, 1>> W; auto r = s.bulk(); for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) { for (int k = 0; k < 3; k++) c.P[i + nu * j][k] = O[k] + gu[i] * A[k] + gv[j] * B[k]; f.P[i + nu * j] = {r.range(-1, 1), 0, 0}; W.push_back({f.P[i + nu * j][0]}); }
    gbs::BSSfunction<double> F(gbs::BSSurface<double, 1>(W, c.U.flat, c.V.flat, c.U.p, c.V.p)); auto S = c.make(); const gbs::BSSurfaceGeneral<double, 3, false> &G = S;
    // enough samples in every span
    auto enough = [&](const Knots<double> &k, size_t n) { double L = k.hi() - k.lo(), h = L / (n - 1), m = L; for (size_t i = 1; i < k.brk.size(); i++) m = std::min(m, k.brk[i] - k.brk[i - 1]); return m > (k.p + 1) * h; }; size_t mu = s.in(20, 45), mv = s.in(20, 45); DISCARD_IF(!enough(c.U, mu) || !enough(c.V, mv));
    s << "p=" << c.U.p << "," << c.V.p << " " << show(c.U.flat) << show(c.V.flat) << " " << mu << "x" << mv; auto R = gbs::offset_approx<double, false>(F, G, mu, mv); REQUIRE(R.degreeU() == c.U.p && R.degreeV() == c.V.p && R.knotsFlatsU() == c.U.flat && R.knotsFlatsV() == c.V.flat);
    double sc = 1 + maxabs(c.P); for (int q = 0; q < 6; q++) { double u = q == 0 ? c.U.lo() : q == 1 ? c.U.hi() : c.U.lo() + (c.U.hi() - c.U.lo()) * s.unit(), v = q == 0 ? c.V.hi() : c.V.lo() + (c.V.hi() - c.V.lo()) * s.unit(); auto x = R.value(u, v); double h = f.val(u, v)[0]; for (int k = 0; k < 3; k++) { double e = O[k] + u * A[k] + v * B[k] + h * n[k]; REQUIRE_MSG(std::abs(x[k] - e) <= 1e-7 * sc, "offset at " << u << "," << v << ": " << x[k] << " instead of " << e); } }
    s.nontrivial(nu != nv || c.U.p != c.V.p);
}
// curves of a list share their bounds or not; a new law takes the place of the former one
PBT_ARM(bounds_and_laws, 200, 6000)
{
    auto k = gcrv<2, false>(s, 1, 3, 3); size_t n = s.in(1, 5), odd = s.draw(n), side = s.draw(2); double L = k.K.hi() - k.K.lo(), by = s.one_of({0., 0., 1e-15, 1e-12, 1e-6, 0.1, -1e-12, -1e-6, -0.3}) * L; std::vector<gbs::BSCurve<double, 2>> C; std::vector<std::shared_ptr<gbs::BSCurve<double, 2>>> Q;
    for (size_t i = 0; i < n; i++) { auto c = k.make(); if (s.chance(1, 2)) c.insertKnot(k.K.lo() + L * s.real(0.1, 0.9)); if (i == odd) { auto b = c.bounds(); b[side] += by; c.changeBounds(b); } C.push_back(c); Q.push_back(std::make_shared<gbs::BSCurve<double, 2>>(c)); }
    double d = n > 1 ? std::abs(C[odd].bounds()[side] - C[odd ? 0 : 1].bounds()[side]) : 0; bool want = d < 2e-14, unsure = d > 1e-14 && d < 1e-13; s << n << " curves, bound " << side << " of curve " << odd << " by " << by;
    if (!unsure) { REQUIRE_MSG((gbs::check_curves_bounds<double, 2>(C.begin(), C.end())) == want, "bounds of the curves differ by " << d); REQUIRE_MSG((gbs::check_p_curves_bounds<double, 2>(Q.begin(), Q.end())) == want, "bounds of the pointed curves differ by " << d); }
    auto [f1, f2] = std::pair{0.3, 0.6}; double a = k.K.lo(); auto lin = [&](double x, double y) { return gbs::BSCfunction<double>(gbs::BSCurve<double, 1>({{x}, {y}}, {0., 0., 1., 1.}, 1)); };
    gbs::CurveReparametrized<double, 2> R(std::make_shared<gbs::BSCurve<double, 2>>(k.make()), lin(a, a + L)); double t = s.unit(); R.setParamFunction(lin(a + f1 * L, a + f2 * L)); auto x = R.value(t), e = k.val(a + L * (f1 + (f2 - f1) * t)); for (int c = 0; c < 2; c++) REQUIRE_MSG(std::abs(x[c] - e[c]) <= 1e-10 * k.scale() * 30, "new law: " << x[c] << " instead of " << e[c]);
    s.nontrivial(n > 2);
}
// arguments left out: the point itself, the unit circle about the origin, the whole turn
template <typename C> static void point_by_default(const C &c, double u, const char *what) { REQUIRE_MSG(c.value(u) == c.value(u, 0) && c(u) == c.value(u, 0) && c(u, 1) == c.value(u, 1), what << ": value(u) is not value(u, 0) at " << u); }
template <typename C> static void surface_point_by_default(const C &c, double u, double v, const char *what) { REQUIRE_MSG(c.value(u, v) == c.value(u, v, 0, 0) && c(u, v) == c.value(u, v, 0, 0) && c.value(u, v, 1) == c.value(u, v, 1, 0) && c(u, v, 1) == c.value(u, v, 1, 0) && c(u, v, 0, 1) == c.value(u, v, 0, 1), what << ": left out orders are not zero at " << u << "," << v); }
PBT_ARM(defaults, 300, 8000)
{
    auto a = adv<2, false>(s, 2, 4); auto ar = adv<2, true>(s, 2, 4); auto g = adv<3, false>(s, 2, 4); auto A = std::make_shared<gbs::BSCurve<double, 2>>(a.make()); auto G = std::make_shared<gbs::BSCurve<double, 3>>(g.make()); double lo = a.K.lo(), hi = a.K.hi(), L = hi - lo, u = lo + L * s.real(0.1, 0.9), w = g.K.lo() + (g.K.hi() - g.K.lo()) * s.real(0.1, 0.9); s << "at " << u << " and " << w;
    point_by_default(*A, u, "spline"); point_by_default(ar.make(), ar.K.lo() + (ar.K.hi() - ar.K.lo()) * s.unit(), "rational spline");
    point_by_default(gbs::CurveTrimmed<double, 2>(A, lo + 0.05 * L, hi - 0.05 * L), u, "trimmed"); point_by_default(gbs::CurveReversed<double, 2>(A), u, "reversed"); point_by_default(gbs::CurveExtended<double, 2>(A), hi + L, "extended"); point_by_default(gbs::CurveExtended<double, 2>(A, true), lo - L, "clamped"); { auto l = law(s, lo, hi); point_by_default(gbs::CurveReparametrized<double, 2>(A, l.f), l.c.K.lo() + (l.c.K.hi() - l.c.K.lo()) * 0.4, "reparametrised"); REQUIRE(l.f(0.5 * (l.c.K.lo() + l.c.K.hi())) == l.f(0.5 * (l.c.K.lo() + l.c.K.hi()), 0)); }
    { gbs::CurveExtended<double, 2> e(A), f(A, false); REQUIRE(e.value(hi + 0.3 * L) == f.value(hi + 0.3 * L) && e.value(lo - L, 1) == f.value(lo - L, 1)); }
    point_by_default(gbs::CurveComposite<double, 2>(std::vector<Ptr<2>>{A, A}), u, "composite");
    gbs::BSCfunction<double> h(gbs::BSCurve<double, 1>({{0.3}, {0.6}, {0.2}}, {lo, lo, lo, hi, hi, hi}, 2)), h3(gbs::BSCurve<double, 1>({{0.3}, {0.6}, {0.2}}, {g.K.lo(), g.K.lo(), g.K.lo(), g.K.hi(), g.K.hi(), g.K.hi()}, 2)); REQUIRE(h(u) == h(u, 0));
    point_by_default(gbs::CurveOffset2D<double, gbs::BSCfunction<double>>(A, h), u, "plane offset"); point_by_default(gbs::CurveOffset3D<double, gbs::BSCfunction<double>>(G, h3, {0.1, 0.2, 1.}), w, "space offset");
    // circles
    double r = s.real(0.1, 5), t = s.real(-7, 7), pi = std::numbers::pi; std::array<double, 2> O2{s.sym(3), s.sym(3)}; auto at2 = [&](const gbs::Circle2d<double> &c, double R, std::array<double, 2> O) { auto v = c.value(t); REQUIRE_MSG(c.getR() == R && c.getC() == O && std::abs(v[0] - O[0] - R * std::cos(t)) < 1e-13 * (4 + R) && std::abs(v[1] - O[1] - R * std::sin(t)) < 1e-13 * (4 + R), "plane circle of radius " << R << " at " << t << ": " << show(v)); point_by_default(c, t, "plane circle"); };
    at2(gbs::Circle2d<double>(), 1, {0, 0}); at2(gbs::Circle2d<double>(r), r, {0, 0}); at2(gbs::Circle2d<double>(r, O2), r, O2);
    for (int k = 0; k < 2; k++) { gbs::Circle3d<double> c = k ? gbs::Circle3d<double>(r) : gbs::Circle3d<double>(); double R = k ? r : 1; REQUIRE(c.getR() == R && c.getC() == (std::array<double, 3>{0, 0, 0}) && c.getZ() == (std::array<double, 3>{0, 0, 1})); auto v = c.value(t), d = c.value(t, 1); REQUIRE_MSG(std::abs(v[2]) < 1e-14 * (1 + R) && std::abs(std::hypot(v[0], v[1]) - R) < 1e-13 * (1 + R) && std::abs(v[0] * d[1] - v[1] * d[0] - R * R) < 1e-12 * (1 + R * R), "space circle of radius " << R << " at " << t << ": " << show(v)); point_by_default(c, t, "space circle"); }
    { auto q = dir3(s); std::array<double, 3> O{s.sym(3), s.sym(3), s.sym(3)}; point_by_default(gbs::Line<double, 3>(gbs::ax1<double, 3>{{O, q}}), t, "line"); }
    // surfaces
    auto S = gsrf<false>(s, 1, 4); auto Sr = gsrf<true>(s, 1, 4); auto B = std::make_shared<gbs::BSSurface<double, 3>>(S.make()); double x = S.U.lo() + (S.U.hi() - S.U.lo()) * s.unit(), y = S.V.lo() + (S.V.hi() - S.V.lo()) * s.unit(); surface_point_by_default(*B, x, y, "surface"); surface_point_by_default(Sr.make(), Sr.U.lo() + (Sr.U.hi() - Sr.U.lo()) * s.unit(), Sr.V.lo() + (Sr.V.hi() - Sr.V.lo()) * s.unit(), "rational surface");
    { auto r1 = s.bulk(); std::vector<double> Q; std::vector<std::array<double, 1>> Q1; for (size_t i = 0; i < S.U.n() * S.V.n(); i++) { Q.push_back(r1.range(-1, 1)); Q1.push_back({Q.back()}); } gbs::BSSfunction<double> F(Q, S.U.flat, S.V.flat, S.U.p, S.V.p); gbs::BSSurface<double, 1> E(Q1, S.U.flat, S.V.flat, S.U.p, S.V.p); for (size_t du = 0; du < 2; du++) for (size_t dv = 0; dv < 2; dv++) REQUIRE(F(x, y, du, dv) == E.value(x, y, du, dv)[0]); REQUIRE(F(x, y) == E.value(x, y)[0] && F(x, y, 1) == E.value(x, y, 1, 0)[0] && F.bounds() == E.bounds() && F.basisSurface().poles() == E.poles()); auto [ku, mu] = gbs::knots_and_mults(S.U.flat); auto [kv, mv] = gbs::knots_and_mults(S.V.flat); gbs::BSSfunction<double> F2(Q, ku, kv, mu, mv, S.U.p, S.V.p); REQUIRE(F2(x, y) == F(x, y) && F2(x, y, 0, 1) == F(x, y, 0, 1)); }
    { gbs::ax2<double, 3> ax{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}; gbs::SurfaceOfRevolution<double> R(A, ax); auto b = R.bounds(); REQUIRE(b[0] == lo && b[1] == hi && b[2] == 0 && std::abs(b[3] - 2 * pi) < 1e-15); surface_point_by_default(R, u, s.real(0, 6), "revolution"); gbs::SurfaceOfRevolution<double> R1(A, ax, 1.); REQUIRE(R1.bounds()[2] == 1. && std::abs(R1.bounds()[3] - 2 * pi) < 1e-15); 
      gbs::SurfaceOfRevolution<double> R2(*A, ax), R3(*A, ax, 0.5), R4(*A, ax, 0.5, 2.); std::array<double, 4> e2{lo, hi, 0, 2 * pi}, e3{lo, hi, 0.5, 2 * pi}, e4{lo, hi, 0.5, 2}; for (int k = 0; k < 4; k++) REQUIRE_MSG(std::abs(R2.bounds()[k] - e2[k]) < 1e-15 * (1 + std::abs(e2[k])) && std::abs(R3.bounds()[k] - e3[k]) < 1e-15 * (1 + std::abs(e3[k])) && std::abs(R4.bounds()[k] - e4[k]) < 1e-15 * (1 + std::abs(e4[k])), "bounds of a turned spline: " << show(R2.bounds()) << show(R3.bounds()) << show(R4.bounds())); double v = s.real(0, 6); REQUIRE(R2.value(u, v) == R.value(u, v) && R3.value(u, v) == R.value(u, v)); }
    { auto q = std::make_shared<gbs::BSCurve<double, 2>>(std::vector<std::array<double, 2>>{{S.U.lo(), S.V.lo()}, {S.U.hi(), S.V.hi()}}, std::vector<double>{0, 0, 1, 1}, 1); point_by_default(gbs::CurveOnSurface<double, 3>(q, B), s.unit(), "curve on a surface"); }
    s.nontrivial();
}
