#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
const char *pbt_property = "P03";
const char *pbt_rule = "random tensor-product surfaces (polynomial and rational, degrees 1..6 per direction chosen independently, different pole counts, repeated knots, shifted domains), parameters at corners/knots/interior, mixed derivative orders; iso-curves in both directions; non-trivial: the two directions differ in degree or pole count, or a derivative is compared";
using namespace gen;
template <typename T, size_t N, bool rat>
static void check_surface(Src &s, int dmax)
{
    size_t p = degree(s, dmax), q = degree(s, dmax);
    KOpt o; o.max_spans = 4; o.ratio = sizeof(T) == 4 ? 10 : 100;
    auto U = knots<T>(s, p, o), V = knots<T>(s, q, o);
    std::vector<std::array<T, N + rat>> P;
    if constexpr (rat) P = hpoints<T, N>(s, U.n() * V.n()); else P = points<T, N>(s, U.n() * V.n());
    using S = std::conditional_t<rat, gbs::BSSurfaceRational<T, N>, gbs::BSSurface<T, N>>;
    S f(P, U.flat, V.flat, p, q);
    T u = param(s, U), v = param(s, V);
    size_t a = s.draw(std::min<size_t>(p, 4) + 2), b = s.draw(std::min<size_t>(q, 4) + 2);
    s << (rat ? "rational " : "") << "p=" << p << " q=" << q << " ku=" << show(U.flat) << " kv=" << show(V.flat) << " u=" << u << " v=" << v << " orders " << a << "," << b;
    std::vector<ref::Val<N>> R;
    if constexpr (rat) R = ref::rsurface<T, N>(U.flat, V.flat, P, p, q, u, v, a, b); else R = ref::surface<T, N>(U.flat, V.flat, P, p, q, u, v, a, b);
    std::vector<std::array<T, N>> D((a + 1) * (b + 1));
    f.derivatives(u, v, a, b, D.data());
    const double tol = 32. * (p + 2) * (q + 2);
    for (size_t i = 0; i <= a; i++)
        for (size_t j = 0; j <= b; j++)
        {
            auto r2 = ratio_to_ref<T, N>(D[i * (b + 1) + j], R[i * (b + 1) + j]);
            auto x = f.value(u, v, i, j);
            auto r1 = ratio_to_ref<T, N>(x, R[i * (b + 1) + j]);
            REQUIRE_MSG(r1 <= tol, "value(" << i << "," << j << ") off by " << r1);
            REQUIRE_MSG(r2 <= tol, "derivatives(" << i << "," << j << ") off by " << r2);
            REQUIRE(f(u, v, i, j) == x);
            REQUIRE((static_cast<const gbs::Surface<T, N> &>(f).value(std::array<T, 2>{u, v}, i, j) == x));
        }
    REQUIRE(f.nPolesU() == U.n() && f.nPolesV() == V.n());
    auto B = f.bounds();
    REQUIRE(B[0] == U.lo() && B[1] == U.hi() && B[2] == V.lo() && B[3] == V.hi());
    s.nontrivial(p != q || U.n() != V.n() || a + b > 0);
    if (rat) s.label("rational");
}
PBT_ARM(surf_d3, 6000, 250000) { check_surface<double, 3, false>(s, 6); }
PBT_ARM(surf_d2, 2500, 80000) { check_surface<double, 2, false>(s, 6); }
PBT_ARM(surf_d1, 1500, 50000) { check_surface<double, 1, false>(s, 5); }
PBT_ARM(surf_rational_d3, 4000, 150000) { check_surface<double, 3, true>(s, 5); }
PBT_ARM(surf_rational_d2, 1500, 50000) { check_surface<double, 2, true>(s, 5); }
PBT_ARM(surf_f3, 1500, 50000) { check_surface<float, 3, false>(s, 4); }
PBT_ARM(surf_rational_f3, 800, 30000) { check_surface<float, 3, true>(s, 3); }
PBT_ARM(surf_high_degree, 200, 6000)
{
    size_t p = s.in(5, 24), q = s.in(1, 24);
    KOpt o; o.max_spans = 2; o.ratio = 4; auto U = knots<double>(s, p, o), V = knots<double>(s, q, o);
    auto g = s.bulk(); std::vector<std::array<double, 2>> P(U.n() * V.n()); for (auto &x : P) for (auto &c : x) c = g.range(-5, 5);
    gbs::BSSurface<double, 2> f(P, U.flat, V.flat, p, q);
    double u = param(s, U), v = param(s, V); size_t a = s.draw(4), b = s.draw(4);
    s << "p=" << p << " q=" << q << " u=" << u << " v=" << v << " orders " << a << "," << b;
    auto R = ref::surface<double, 2>(U.flat, V.flat, P, p, q, u, v, a, b);
    std::vector<std::array<double, 2>> D((a + 1) * (b + 1)); f.derivatives(u, v, a, b, D.data());
    for (size_t i = 0; i <= a; i++) for (size_t j = 0; j <= b; j++)
    {
        auto &r = R[i * (b + 1) + j]; double tol = 32. * (p + 2) * (q + 2);
        REQUIRE((ratio_to_ref<double, 2>(D[i * (b + 1) + j], r) <= tol)); REQUIRE((ratio_to_ref<double, 2>(f.value(u, v, i, j), r) <= tol));
    }
    s.nontrivial();
}
PBT_ARM(surf_beyond_stack, 6, 60)
{
    size_t p = 25, q = s.in(1, 2); bool sw = s.chance(1, 2);
    std::vector<double> k(p + 1, 0.); k.insert(k.end(), p + 1, 1.); std::vector<double> l(q + 1, 0.); l.insert(l.end(), q + 1, 1.);
    auto P = points<double, 1>(s, (p + 1) * (q + 1));
    double u = s.unit(), v = s.unit(); size_t a = s.in(0, 1), b = s.in(0, 1);
    s << "degree 25 x " << q << " u=" << u << " v=" << v;
    auto &ku = sw ? l : k; auto &kv = sw ? k : l; size_t pu = sw ? q : p, pv = sw ? p : q;
    gbs::BSSurface<double, 1> f(P, ku, kv, pu, pv);
    auto R = ref::surface<double, 1>(ku, kv, P, pu, pv, u, v, a, b);
    REQUIRE((ratio_to_ref<double, 1>(f.value(u, v, a, b), R.back()) <= 32. * 27 * 27));
    s.nontrivial();
}
template <bool rat>
static void iso(Src &s)
{
    size_t p = degree(s, 5), q = degree(s, 5);
    KOpt o; o.max_spans = 4; o.ratio = 30; auto U = knots<double>(s, p, o), V = knots<double>(s, q, o);
    std::vector<std::array<double, 3 + rat>> P;
    if constexpr (rat) P = hpoints<double, 3>(s, U.n() * V.n()); else P = points<double, 3>(s, U.n() * V.n());
    using S = std::conditional_t<rat, gbs::BSSurfaceRational<double, 3>, gbs::BSSurface<double, 3>>;
    S f(P, U.flat, V.flat, p, q);
    bool alongU = s.chance(1, 2);
    // iso parameter: exact knots and ends included, near-duplicates of knots excluded (they would insert a knot closer than the library's own knot tolerance)
    double w = s.chance(1, 2) ? (alongU ? V : U).brk[s.draw((alongU ? V : U).brk.size())] : inner_param(s, alongU ? V : U, 0.01);
    double t = param(s, alongU ? U : V);
    size_t d = s.draw(4);
    s << (alongU ? "isoV at " : "isoU at ") << w << " t=" << t << " order " << d << " p=" << p << " q=" << q << " ku=" << show(U.flat) << " kv=" << show(V.flat);
    auto c = alongU ? f.isoV(w) : f.isoU(w);
    REQUIRE(c.bounds()[0] == (alongU ? U : V).lo() && c.bounds()[1] == (alongU ? U : V).hi());
    std::vector<ref::Val<3>> R;
    size_t a = alongU ? d : 0, b = alongU ? 0 : d; double u = alongU ? t : w, v = alongU ? w : t;
    if constexpr (rat) R = ref::rsurface<double, 3>(U.flat, V.flat, P, p, q, u, v, a, b); else R = ref::surface<double, 3>(U.flat, V.flat, P, p, q, u, v, a, b);
    auto r = ratio_to_ref<double, 3>(c.value(t, d), R.back());
    REQUIRE_MSG(r <= 64. * (p + 2) * (q + 2), "iso-curve off by " << r);
    s.nontrivial();
}
PBT_ARM(iso_curves, 3000, 100000) { iso<false>(s); }
PBT_ARM(iso_curves_rational, 2000, 60000) { iso<true>(s); }
// tangent, arc-length-like derivatives, scalar function
PBT_ARM(surface_tangents, 1500, 50000)
{
    size_t p = s.in(2, 4), q = s.in(2, 4); KOpt o; o.max_mult = 1; o.ratio = 10; o.max_spans = 3; auto U = knots<double>(s, p, o), V = knots<double>(s, q, o);
    auto P = points<double, 3>(s, U.n() * V.n());
    gbs::BSSurface<double, 3> f(P, U.flat, V.flat, p, q);
    double u = inner_param(s, U), v = inner_param(s, V), x = s.sym(3), y = s.sym(3);
    auto R = ref::surface<double, 3>(U.flat, V.flat, P, p, q, u, v, 2, 2);
    auto g = [&](int a, int b, int c) { return double(R[a * 3 + b].v[c]); };
    s << "u=" << u << " v=" << v << " delta " << x << "," << y;
    double nu = 0, nv = 0, duu = 0, dvv = 0, sc = 0;
    for (int c = 0; c < 3; c++) { nu += g(1, 0, c) * g(1, 0, c); nv += g(0, 1, c) * g(0, 1, c); duu += g(1, 0, c) * g(2, 0, c); dvv += g(0, 1, c) * g(0, 2, c); sc += double(R[3].a[c] + R[6].a[c] + R[1].a[c] + R[2].a[c]); }
    DISCARD_IF(std::sqrt(nu) < 1e-3 * sc || std::sqrt(nv) < 1e-3 * sc);
    auto t = f.tangent(u, v, x, y); auto du = f.d_dmu(u, v), dv = f.d_dmv(u, v), du2 = f.d_dmu2(u, v), dv2 = f.d_dmv2(u, v);
    for (int c = 0; c < 3; c++)
    {
        REQUIRE(std::abs(t[c] - (x * g(1, 0, c) + y * g(0, 1, c))) <= 1e-10 * (1 + sc));
        REQUIRE(std::abs(du[c] - g(1, 0, c) / std::sqrt(nu)) < 1e-9); REQUIRE(std::abs(dv[c] - g(0, 1, c) / std::sqrt(nv)) < 1e-9);
        REQUIRE(std::abs(du2[c] - (g(2, 0, c) * nu - g(1, 0, c) * duu) / nu / nu) < 1e-8 * (1 + sc / nu));
        REQUIRE(std::abs(dv2[c] - (g(0, 2, c) * nv - g(0, 1, c) * dvv) / nv / nv) < 1e-8 * (1 + sc / nv));
    }
    std::vector<double> z; for (auto &e : P) z.push_back(e[2]);
    gbs::BSSfunction<double> h(z, U.flat, V.flat, p, q), h2(z, U.brk, V.brk, U.mult, V.mult, p, q);
    REQUIRE(std::abs(h(u, v, 1, 1) - g(1, 1, 2)) <= 1e-10 * (1 + double(R[4].a[2]))); REQUIRE(h(u, v) == h2(u, v));
    s.nontrivial();
}

// the pole net, the degrees and the domain as the accessors give them, copies through info, replaced poles
template <bool rat> static void accessors(Src &s)
{
    constexpr size_t D = 3 + rat; using S = std::conditional_t<rat, gbs::BSSurfaceRational<double, 3>, gbs::BSSurface<double, 3>>; size_t p = degree(s, 4), q = degree(s, 4); KOpt o; o.max_spans = 4; o.ratio = 10; auto U = knots<double>(s, p, o), V = knots<double>(s, q, o); size_t nu = U.n(), nv = V.n();
    std::vector<std::array<double, D>> P, P2; if constexpr (rat) { P = hpoints<double, 3>(s, nu * nv, 10, 3); P2 = hpoints<double, 3>(s, nu * nv, 10, 3); } else { P = points<double, 3>(s, nu * nv); P2 = points<double, 3>(s, nu * nv); }
    S f(P, U.flat, V.flat, p, q), f2(P, U.brk, V.brk, U.mult, V.mult, p, q); s << "degrees " << p << "," << q << " net " << nu << "x" << nv;
    auto same = [&](const S &g, const std::vector<std::array<double, D>> &W) {
        REQUIRE(g.degreeU() == p && g.degreeV() == q && g.orderU() == p + 1 && g.orderV() == q + 1 && g.nPolesU() == nu && g.nPolesV() == nv && g.knotsFlatsU() == U.flat && g.knotsFlatsV() == V.flat && g.poles() == W);
        REQUIRE(g.knotsU() == U.brk && g.knotsV() == V.brk && g.multsU() == U.mult && g.multsV() == V.mult); REQUIRE((g.boundsU() == std::array<double, 2>{U.lo(), U.hi()} && g.boundsV() == std::array<double, 2>{V.lo(), V.hi()}));
        REQUIRE(size_t(g.poles_end() - g.poles_begin()) == W.size() && std::equal(g.poles_begin(), g.poles_end(), W.begin()));
        for (size_t j = 0; j < nv; j++) { auto r = g.polesU(j); REQUIRE(r.size() == nu); for (size_t i = 0; i < nu; i++) REQUIRE_MSG(r[i] == W[i + nu * j] && g.pole(i, j) == W[i + nu * j], "pole " << i << "," << j); }
        for (size_t i = 0; i < nu; i++) { auto r = g.polesV(i); REQUIRE(r.size() == nv); for (size_t j = 0; j < nv; j++) REQUIRE_MSG(r[j] == W[i + nu * j], "column " << i << " row " << j); } };
    same(f, P); same(f2, P); auto inf = f.info(); REQUIRE(std::get<0>(inf).size() == nv && std::get<0>(inf)[nv - 1].size() == nu && std::get<0>(inf)[nv - 1][0] == P[nu * (nv - 1)]); S g(inf); same(g, P);
    g.copyPoles(P2); same(g, P2); { auto w = P; g.movePoles(w); same(g, P); }
    size_t i = s.draw(nu), j = s.draw(nv); g.pole(i, j) = P2[0]; auto W = P; W[i + nu * j] = P2[0]; same(g, W);
    if constexpr (rat) { auto w = f.weights(); auto pr = f.polesProjected(); for (size_t k = 0; k < P.size(); k++) { REQUIRE(w[k] == P[k][3]); for (int c = 0; c < 3; c++) REQUIRE(std::abs(pr[k][c] - P[k][c] / P[k][3]) <= 1e-14 * (1 + std::abs(pr[k][c]))); } }
    int bad = 0; try { g.pole(nu, 0); bad = 1; } catch (std::out_of_range &) { } try { g.pole(0, nv + s.draw(3)); bad = 2; } catch (std::out_of_range &) { } auto sh = P; sh.pop_back(); try { g.copyPoles(sh); bad = 3; } catch (std::length_error &) { } try { g.movePoles(sh); bad = 4; } catch (std::length_error &) { } REQUIRE_MSG(!bad, "request " << bad << " out of the net was not refused"); same(g, W); s.nontrivial(nu != nv);
}
PBT_ARM(accessors_poly, 300, 9000) { accessors<false>(s); }
PBT_ARM(accessors_rational, 300, 9000) { accessors<true>(s); }
// requests a surface cannot honour: iso-curves outside the domain, nets, knots and degrees that do not fit
template <bool rat> static void refusals(Src &s)
{
    using S = std::conditional_t<rat, gbs::BSSurfaceRational<double, 3>, gbs::BSSurface<double, 3>>; size_t p = degree(s, 4), q = degree(s, 4); KOpt o; o.max_spans = 4; o.ratio = 10; auto U = knots<double>(s, p, o), V = knots<double>(s, q, o); std::vector<std::array<double, 3 + rat>> P; if constexpr (rat) P = hpoints<double, 3>(s, U.n() * V.n(), 10, 3); else P = points<double, 3>(s, U.n() * V.n());
    S f(P, U.flat, V.flat, p, q); bool onU = s.chance(1, 2); auto &K = onU ? U : V; double L = K.hi() - K.lo(), sc = std::max({1., std::abs(K.lo()), std::abs(K.hi())}); double e = sc * s.one_of({1e-9, 1e-6, 1e-2, 3.}); bool low = s.chance(1, 2); double w = low ? K.lo() - e : K.hi() + e; int what = s.draw(5); s << (onU ? "U " : "V ") << "case " << what << " degrees " << p << "," << q << " at " << w << " domain " << K.lo() << "," << K.hi(); (void)L;
    int got = 0;
    if (what == 0) { try { if (onU) f.isoU(w); else f.isoV(w); } catch (gbs::OutOfBoundsSurfaceIsoU<double> &) { got = 1; } catch (gbs::OutOfBoundsSurfaceIsoV<double> &) { got = 2; } REQUIRE_MSG(got == (onU ? 1 : 2), "iso-curve outside the domain: " << (got ? "wrong exception" : "not refused")); }
    else if (what == 1) { auto u = U.flat, v = V.flat; auto &k = onU ? u : v; size_t d = onU ? p : q; size_t i = d + 1 + s.draw(k.size() - d - 1); size_t j = s.draw(d + 1); std::swap(k[i], k[j]); DISCARD_IF(std::is_sorted(k.begin(), k.end())); try { S g(P, u, v, p, q); } catch (std::invalid_argument &) { got = 1; } REQUIRE_MSG(got, "knots out of order were accepted"); }
    else if (what == 2) { auto W = P; if (s.chance(1, 2)) W.pop_back(); else W.push_back(W.back()); try { S g(W, U.flat, V.flat, p, q); } catch (std::invalid_argument &) { got = 1; } REQUIRE_MSG(got, "a net of the wrong size was accepted"); }
    else if (what == 3) { auto u = U.flat, v = V.flat; auto &k = onU ? u : v; k.push_back(k.back()); try { S g(P, u, v, p, q); } catch (std::invalid_argument &) { got = 1; } REQUIRE_MSG(got, "one knot too many was accepted"); }
    else { size_t n = onU ? U.n() : V.n(), d = n + s.draw(3); std::vector<double> k(n + d + 1); for (size_t i = 0; i < k.size(); i++) k[i] = double(i); try { if (onU) S g(P, k, V.flat, d, q); else S g(P, U.flat, k, p, d); } catch (std::invalid_argument &) { got = 1; } REQUIRE_MSG(got, "a degree of " << d << " with " << n << " poles was accepted"); }
    s.nontrivial(); s.label(what == 0 ? "iso" : what == 1 ? "order" : what == 2 ? "net" : what == 3 ? "knots" : "degree");
}
PBT_ARM(refusals_poly, 300, 9000) { refusals<false>(s); }
PBT_ARM(refusals_rational, 300, 9000) { refusals<true>(s); }
