#include "gen.h"
#include "shapes.h"
#include <deque>
#include <list>
#include <thread>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/execution.h>
#include <gbs/offsets.h>
const char *pbt_property = "P14";
const char *pbt_rule = "random curves and surfaces evaluated in bulk with sizes on both sides of the parallel gates (themselves moved at random), from vectors, lists and deques, with out-of-domain parameters and failing builds at random places, and from several threads at once; oracle: one element at a time on one thread, bit for bit, the same exception; arc-length derivatives against the quad-precision reference; non-trivial: the parallel branch is taken or a failure is injected";
// restores the gates
struct Gate { size_t a = gbs::parallel_min_size, b = gbs::parallel_batch_min_size; ~Gate() { gbs::parallel_min_size = a; gbs::parallel_batch_min_size = b; } };
static size_t size(Src &s, size_t gate) { return s.weighted({2, 3}) ? size_t(std::max<int>(0, int(gate) + s.in(-1, 1))) : gate < 200 ? size_t(s.in(0, 150)) : size_t(s.one_of({0, 1, 3, 500, 1500, 4000})); }
static size_t set_gate(Src &s) { return gbs::parallel_min_size = s.one_of<size_t>({1000, 1000, 1, 2, 17, 100}); }
template <typename A> static bool same(const A &a, const A &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], sizeof a[i])) { bool nan = true; for (size_t c = 0; c < a[i].size(); c++) nan = nan && (a[i][c] == b[i][c] || (std::isnan(a[i][c]) && std::isnan(b[i][c]))); if (!nan) return false; } return true; }
template <size_t N, bool rat> static void curve(Src &s)
{
    Gate g; auto c = gcrv<N, rat>(s, 1, 5, 4); auto C = c.make(); size_t gate = set_gate(s), n = size(s, gate), d = s.draw(4);
    s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " n=" << n << " gate=" << gate << " d=" << d;
    std::vector<double> u(n); auto r = s.bulk(); for (auto &x : u) x = r.below(5) ? r.range(c.K.lo(), c.K.hi()) : c.K.brk[r.below(c.K.brk.size())];
    gbs::points_vector<double, N> E(n), T1(n), T2(n); for (size_t i = 0; i < n; i++) { E[i] = C.value(u[i], d); T1[i] = C.d_dm(u[i]); T2[i] = C.d_dm2(u[i]); }
    std::list<double> l(u.begin(), u.end()); std::deque<double> q(u.begin(), u.end()); const gbs::Curve<double, N> &B = C;
    auto V = C.values(u, d);
    REQUIRE(same(V, E)); REQUIRE(same(C.values(l, d), E)); REQUIRE(same(B.values(q, d), E)); REQUIRE(same(gbs::make_points<double, N>(C, u, d), E)); REQUIRE(same(gbs::make_points<double, N>(C, l, d), E));
    REQUIRE(same(C.d_dms(u), T1)); REQUIRE(same(C.d_dms(l), T1)); REQUIRE(same(C.d_dm2s(u), T2)); REQUIRE(same(B.d_dm2s(q), T2));
    // derivatives of all orders in one pass
    for (int k = 0; k < 3; k++)
    {
        double x = param(s, c.K); size_t m = s.draw(7); std::vector<std::array<double, N>> K(m + 1); C.derivatives(x, m, K.data()); auto R = c.at(x, m);
        for (size_t i = 0; i <= m; i++) { auto v = C.value(x, i); for (size_t a = 0; a < N; a++) { double t = 1e4 * 2.3e-16 * (double(R[i].a[a]) + 1e-300); REQUIRE_MSG(std::abs(K[i][a] - v[a]) <= t, "order " << i << " of " << m << " at " << x << ": " << K[i][a] << " and " << v[a]); } }
        auto a = C.begin(m), b = C.end(m); REQUIRE(a == C.value(C.bounds()[0], m) && b == C.value(C.bounds()[1], m) && C(x, m) == C.value(x, m));
        // arc-length derivatives from their definition
        auto v1 = c.val(x, 1); double sp = mag(v1); if (sp < 1e-2) continue;
        auto t1 = C.d_dm(x), t2 = C.d_dm2(x); auto v2 = c.val(x, 2); double d12 = 0; for (size_t e = 0; e < N; e++) d12 += v1[e] * v2[e];
        double cond = 1e-10 * (1 + c.scale() / c.K.minspan() / sp), m2 = 1 + mag(v2) / (sp * sp) + c.scale() / std::pow(c.K.minspan() * sp, 2);
        for (size_t e = 0; e < N; e++) { REQUIRE_MSG(std::abs(t1[e] - v1[e] / sp) <= cond, "d_dm at " << x); REQUIRE_MSG(std::abs(t2[e] - (v2[e] - v1[e] * d12 / (sp * sp)) / (sp * sp)) <= cond * m2, "d_dm2 at " << x << ": " << t2[e] << " instead of " << (v2[e] - v1[e] * d12 / (sp * sp)) / (sp * sp)); }
    }
    // failures: the first bad parameter is reported, whatever the size
    if (n)
    {
        size_t i0 = s.draw(n), nb = s.in(1, 3); auto ub = u; double bad = c.K.hi() + 1 + s.unit(); ub[i0] = bad; for (size_t k = 1; k < nb && i0 + 1 < n; k++) ub[i0 + 1 + s.draw(n - i0 - 1)] = c.K.lo() - 2 - s.unit();
        std::string w0, w1, w2; std::list<double> lb(ub.begin(), ub.end());
        try { C.value(bad, d); } catch (gbs::OutOfBoundsCurveEval<double> &e) { w0 = e.what(); }
        try { C.values(ub, d); } catch (gbs::OutOfBoundsCurveEval<double> &e) { w1 = e.what(); }
        try { C.d_dms(lb); } catch (gbs::OutOfBoundsCurveEval<double> &e) { w2 = e.what(); }
        REQUIRE_MSG(!w0.empty() && w1 == w0 && w2 == w0, "exceptions '" << w0 << "' '" << w1 << "' '" << w2 << "'");
        bool t = false; try { C.d_dm2s(ub); } catch (gbs::OutOfBoundsCurveEval<double> &) { t = true; } REQUIRE(t); REQUIRE(same(C.values(u, d), E));
    }
    s.label(n >= gate ? "parallel" : "serial"); s.nontrivial(n >= 1);
}
PBT_ARM(curve_d1, 100, 3000) { curve<1, false>(s); }
PBT_ARM(curve_d2, 100, 3000) { curve<2, false>(s); }
PBT_ARM(curve_d3, 100, 3000) { curve<3, false>(s); }
PBT_ARM(curve_rational, 100, 3000) { curve<3, true>(s); }
template <bool rat> static void surface(Src &s)
{
    Gate g; auto c = gsrf<rat>(s, 1, 4, false); auto S = c.make(); size_t gate = set_gate(s), n = size(s, gate), du = s.draw(3), dv = s.draw(3);
    s << "pu=" << c.U.p << " pv=" << c.V.p << " ku=" << show(c.U.flat) << " kv=" << show(c.V.flat) << " n=" << n << " gate=" << gate << " du=" << du << " dv=" << dv;
    using P2 = std::array<double, 2>; std::vector<P2> uv(n); std::vector<double> u(n), v(n); auto r = s.bulk();
    for (size_t i = 0; i < n; i++) { u[i] = r.below(5) ? r.range(c.U.lo(), c.U.hi()) : c.U.brk[r.below(c.U.brk.size())]; v[i] = r.below(5) ? r.range(c.V.lo(), c.V.hi()) : c.V.brk[r.below(c.V.brk.size())]; uv[i] = {u[i], v[i]}; }
    gbs::points_vector<double, 3> E(n), A(n), B(n), A2(n), B2(n); for (size_t i = 0; i < n; i++) { E[i] = S.value(u[i], v[i], du, dv); A[i] = S.d_dmu(u[i], v[i]); B[i] = S.d_dmv(u[i], v[i]); A2[i] = S.d_dmu2(u[i], v[i]); B2[i] = S.d_dmv2(u[i], v[i]); }
    std::list<P2> l(uv.begin(), uv.end()); std::deque<double> qu(u.begin(), u.end()), qv(v.begin(), v.end()); const gbs::Surface<double, 3> &G = S;
    REQUIRE(same(G.values(uv, du, dv), E)); REQUIRE(same(G.values(l, du, dv), E)); REQUIRE(same(G.values(u, v, du, dv), E)); REQUIRE(same(G.values(qu, qv, du, dv), E));
    REQUIRE(same(G.d_dmus(uv), A)); REQUIRE(same(G.d_dmvs(uv), B)); REQUIRE(same(G.d_dmu2s(uv), A2)); REQUIRE(same(G.d_dmv2s(l), B2)); REQUIRE(same(G.d_dmus(l), A)); REQUIRE(same(G.d_dmvs(l), B));
    size_t nu = s.in(2, 12), nv = s.in(2, 12); if (s.chance(1, 4)) { nu = 40; nv = 25 + s.in(0, 1); } auto D = gbs::discretize<double, 3>(S, nu, nv);
    gbs::parallel_min_size = 1u << 30; auto D0 = gbs::discretize<double, 3>(S, nu, nv); gbs::parallel_min_size = gate; REQUIRE(same(D, D0));
    for (int k = 0; k < 3; k++)
    {
        double x = param(s, c.U), y = param(s, c.V); size_t mu = s.draw(4), mv = s.draw(4); std::vector<std::array<double, 3>> K((mu + 1) * (mv + 1)); S.derivatives(x, y, mu, mv, K.data());
        for (size_t i = 0; i <= mu; i++) for (size_t j = 0; j <= mv; j++) { auto w = S.value(x, y, i, j); auto R = c.val(x, y, i, j); double t = 1e-11 * c.scale() * std::pow(c.U.p / c.U.minspan(), i) * std::pow(c.V.p / c.V.minspan(), j) * (rat ? 30 : 1); for (int e = 0; e < 3; e++) REQUIRE_MSG(std::abs(K[i * (mv + 1) + j][e] - w[e]) <= t && std::abs(R[e] - w[e]) <= t, "derivative (" << i << "," << j << ") of (" << mu << "," << mv << ")"); }
        auto a = c.val(x, y, 1, 0), b = c.val(x, y, 0, 1), aa = c.val(x, y, 2, 0), bb = c.val(x, y, 0, 2); double na = mag(a), nb = mag(b), daa = 0, dbb = 0; if (na < 0.1 || nb < 0.1) continue; for (int e = 0; e < 3; e++) { daa += a[e] * aa[e]; dbb += b[e] * bb[e]; }
        auto ta = S.d_dmu(x, y), tb = S.d_dmv(x, y), sa = S.d_dmu2(x, y), sb = S.d_dmv2(x, y), tt = S.tangent(x, y, 0.3, -1.7); double ka = 1e-7 * (1 + mag(aa) / na / na), kb = 1e-7 * (1 + mag(bb) / nb / nb);
        for (int e = 0; e < 3; e++) REQUIRE_MSG(std::abs(ta[e] - a[e] / na) < ka && std::abs(tb[e] - b[e] / nb) < kb && std::abs(sa[e] - (aa[e] - a[e] * daa / na / na) / na / na) < ka && std::abs(sb[e] - (bb[e] - b[e] * dbb / nb / nb) / nb / nb) < kb && std::abs(tt[e] - 0.3 * a[e] + 1.7 * b[e]) < 1e-8 * (na + nb), "arc-length derivatives at " << x << "," << y);
    }
    if (n)
    {
        size_t i0 = s.draw(n), kind = s.draw(3); auto b = uv; if (kind != 1) b[i0][0] = c.U.hi() + 1; if (kind != 0) b[i0][1] = c.V.lo() - 1; if (i0 + 1 < n) b[i0 + 1 + s.draw(n - i0 - 1)] = {c.U.hi() + 3, c.V.hi() + 3};
        std::string w0, w1; try { S.value(b[i0][0], b[i0][1], du, dv); } catch (std::exception &e) { w0 = e.what(); } try { G.values(b, du, dv); } catch (std::exception &e) { w1 = e.what(); } REQUIRE_MSG(!w0.empty() && w0 == w1, "'" << w0 << "' '" << w1 << "'");
        auto ub = u, vb = v; for (size_t i = 0; i < n; i++) { ub[i] = b[i][0]; vb[i] = b[i][1]; } w1.clear(); try { G.values(ub, vb, du, dv); } catch (std::exception &e) { w1 = e.what(); } REQUIRE(w0 == w1);
        int t = 0; try { G.d_dmus(b); } catch (std::exception &) { t++; } try { G.d_dmvs(b); } catch (std::exception &) { t++; } try { G.d_dmu2s(b); } catch (std::exception &) { t++; } try { G.d_dmv2s(b); } catch (std::exception &) { t++; } REQUIRE(t == 4);
    }
    s.label(n >= gate ? "parallel" : "serial"); s.nontrivial(n >= 1);
}
PBT_ARM(surface_poly, 100, 3000) { surface<false>(s); }
PBT_ARM(surface_rational, 80, 2500) { surface<true>(s); }
// points at a variable distance of a surface
PBT_ARM(offset_points, 80, 2500)
{
    Gate g; auto c = gsrf<false>(s, 2, 3, false), f = c; auto S = c.make(); auto r = s.bulk(); std::vector<std::array<double, 1>> W; for (auto &x : f.P) { x = {r.range(-1, 1), 0, 0}; W.push_back({x[0]}); }
    gbs::BSSfunction<double> F(gbs::BSSurface<double, 1>(W, c.U.flat, c.V.flat, c.U.p, c.V.p));
    size_t nu = s.in(1, 12), nv = s.in(1, 9); if (s.chance(1, 3)) { nu = 41; nv = 26; } set_gate(s); std::vector<double> u(nu), v(nv); for (auto &x : u) x = r.range(c.U.lo(), c.U.hi()); for (auto &x : v) x = r.range(c.V.lo(), c.V.hi());
    s << nu << "x" << nv << " gate=" << gbs::parallel_min_size; auto P = gbs::offset_points<double>(F, S, u, v); REQUIRE(P.size() == nu * nv);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) if ((i + 3 * j) % 7 == 0 || nu * nv < 60)
    {
        auto p = c.val(u[i], v[j]), a = c.val(u[i], v[j], 1, 0), b = c.val(u[i], v[j], 0, 1); std::array<double, 3> n{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double m = mag(n), h = f.val(u[i], v[j])[0]; if (m < 0.05 * mag(a) * mag(b)) continue;
        for (int e = 0; e < 3; e++) REQUIRE_MSG(std::abs(P[i + nu * j][e] - p[e] - n[e] / m * h) < 1e-7, "offset point " << i << "," << j);
    }
    gbs::parallel_min_size = 1u << 30; REQUIRE(same(P, gbs::offset_points<double>(F, S, u, v))); s.nontrivial();
}
// batches of builds
template <size_t N> static void batch(Src &s)
{
    Gate g; size_t gate = gbs::parallel_batch_min_size = s.one_of<size_t>({8, 8, 1, 2, 5}), n = s.weighted({1, 2}) ? size_t(std::max<int>(0, int(gate) + s.in(-1, 1))) : size_t(s.in(0, 30)), p = s.in(1, 4); auto mode = s.one_of({gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL, gbs::KnotsCalcMode::EQUALLY_SPACED}); size_t np = p + 1 + s.draw(4); bool adim = s.chance(1, 2);
    auto r = s.bulk(); std::vector<gbs::points_vector<double, N>> Q(n); for (auto &q : Q) { q.resize(np + 4 + r.below(30)); for (auto &x : q) for (auto &y : x) y = r.range(-5, 5); }
    // entities which fail, at random places: too few points
    bool bad = n && s.chance(1, 2); if (bad) for (int k = s.in(1, 3); k > 0; k--) Q[s.draw(n)].resize(r.below(p + 1));
    s << n << " sets, gate " << gate << " p=" << p << (bad ? " with failures" : "");
    auto run = [&](auto one, auto all, const char *what)
    {
        std::vector<gbs::BSCurve<double, N>> E; std::string w0, w1, k0, k1;
        try { for (auto &q : Q) E.push_back(one(q)); } catch (std::exception &e) { w0 = e.what(); k0 = typeid(e).name(); }
        std::vector<gbs::BSCurve<double, N>> G; try { G = all(); } catch (std::exception &e) { w1 = e.what(); k1 = typeid(e).name(); }
        REQUIRE_MSG(w0 == w1 && k0 == k1, what << ": '" << w0 << "' one by one, '" << w1 << "' in batch");
        if (!k0.empty()) return; REQUIRE(G.size() == n);
        for (size_t i = 0; i < n; i++) REQUIRE_MSG(G[i].degree() == E[i].degree() && G[i].knotsFlats() == E[i].knotsFlats() && G[i].poles() == E[i].poles(), what << " " << i << " of " << n << " differs");
    };
    run([&](auto &q) { return gbs::interpolate<double, N>(q, p, mode); }, [&] { return gbs::interpolate<double, N>(Q, p, mode); }, "interpolation");
    if (!bad) run([&](auto &q) { return gbs::approx<double, N>(q, p, np, mode, adim); }, [&] { return gbs::approx<double, N>(Q, p, np, mode, adim); }, "approximation");
    // any builder: order kept, lowest failing index rethrown
    std::vector<int> in(n); for (auto &x : in) x = int(r.below(1000)); std::set<size_t> f; if (n) for (int k = s.in(0, 3); k > 0; k--) f.insert(s.draw(n)); std::vector<std::pair<int, size_t>> z; for (size_t i = 0; i < n; i++) z.push_back({in[i], i});
    int got = -1; try { auto o = gbs::build_batch(z, [&](const std::pair<int, size_t> &x) { if (f.count(x.second)) throw int(x.second); return x.first * 3L; }); REQUIRE(f.empty() && o.size() == n); for (size_t i = 0; i < n; i++) REQUIRE(o[i] == in[i] * 3L); } catch (int k) { got = k; } REQUIRE_MSG(got == (f.empty() ? -1 : int(*f.begin())), "failure " << got << " reported");
    s.label(n >= gate ? "parallel" : "serial"); s.nontrivial(n >= 2);
}
PBT_ARM(batch_d2, 150, 4000) { batch<2>(s); }
PBT_ARM(batch_d3, 100, 3000) { batch<3>(s); }
// shapes shared by several threads: evaluation never writes to them
PBT_ARM(threads, 60, 2000)
{
    auto c = gcrv<3, true>(s, 1, 6, 5); auto C = c.make(); auto q = gsrf<false>(s, 1, 4, false); auto S = q.make(); size_t nt = s.in(2, 6), n = s.in(50, 300); auto r = s.bulk(); uint64_t seed = r.next();
    s << nt << " threads, " << n << " evaluations each"; std::vector<uint64_t> h(nt), e(nt);
    auto work = [&](size_t k) { pbt::Rng g(seed + k); uint64_t a = 0; for (size_t i = 0; i < n; i++) { double u = g.range(c.K.lo(), c.K.hi()); size_t d = g.below(3); auto x = C.value(u, d); auto y = S.value(g.range(q.U.lo(), q.U.hi()), g.range(q.V.lo(), q.V.hi()), d, g.below(2)); std::array<double, 3> K[3]; C.derivatives(u, 2, K); for (auto &z : {x, y, K[0], K[1], K[2]}) for (auto w : z) { uint64_t b; memcpy(&b, &w, 8); a = pbt::mix64(a ^ b); } } return a; };
    for (size_t k = 0; k < nt; k++) e[k] = work(k); std::vector<std::thread> T; for (size_t k = 0; k < nt; k++) T.emplace_back([&, k] { h[k] = work(k); }); for (auto &t : T) t.join();
    for (size_t k = 0; k < nt; k++) REQUIRE_MSG(h[k] == e[k], "thread " << k << " computed something else"); s.nontrivial();
}
