#include "gen.h"
#include "shapes.h"
#include <gbs/curves>
const char *pbt_property = "P04";
const char *pbt_rule = "a random B-spline or NURBS curve (degree 1..5, repeated knots) and a history of 1..8 edits (knot insertion with multiplicity, knot insertion lists, knot removal, degree elevation, reversal, re-parametrisation, trimming, conversion to rational); the quad-precision original composed with the affine parameter map is the model, compared after every step; non-trivial: at least two different kinds of edit";
using namespace gen;

struct Map { long double A{0}, B{1}; }; // original parameter = A + B*u
template <size_t N, bool rat>
struct Model
{
    Knots<double> K; std::vector<std::array<double, N + rat>> P;
    Map m; double lo, hi; double scale, tol;
    std::vector<ref::Val<N>> at(double u, size_t d) const
    {
        double t = double(m.A + m.B * (long double)u);
        t = std::min(std::max(t, K.lo()), K.hi());
        std::vector<ref::Val<N>> R;
        if constexpr (rat) R = ref::rcurve<double, N>(K.flat, P, K.p, t, d);
        else R = ref::curve<double, N>(K.flat, P, K.p, t, d);
        ref::Q f = 1;
        for (auto &r : R) { for (auto &x : r.v) x *= f; for (auto &x : r.a) x *= ref::qabs(f); f *= ref::Q(m.B); }
        return R;
    }
    double orig(double u) const { return double(m.A + m.B * (long double)u); }
    bool near_break(double u, double frac = 1e-6) const
    {
        double t = orig(u);
        for (auto b : K.brk) if (std::abs(t - b) < frac * K.minspan()) return true;
        return false;
    }
};
template <typename C, size_t N, bool rat>
static void same(Src &s, const C &c, const Model<N, rat> &M, const char *after)
{
    auto &k = c.knotsFlats(); size_t p = c.degree();
    REQUIRE_MSG(k.size() == c.poles().size() + p + 1, after);
    for (size_t i = 1; i < k.size(); i++) REQUIRE_MSG(k[i - 1] <= k[i], "knots not sorted after " << after);
    auto b = c.bounds();
    double w = M.hi - M.lo;
    REQUIRE_MSG(std::abs(b[0] - M.lo) <= 1e-12 * (1 + std::abs(M.lo)) && std::abs(b[1] - M.hi) <= 1e-12 * (1 + std::abs(M.hi)), "bounds " << b[0] << "," << b[1] << " expected " << M.lo << "," << M.hi << " after " << after);
    for (size_t i = 0; i <= p && i < k.size(); i++) REQUIRE_MSG(std::abs(k[i] - k[0]) < 1e-12 * (1 + std::abs(k[0])) && std::abs(k[k.size() - 1 - i] - k.back()) < 1e-12 * (1 + std::abs(k.back())), "not clamped after " << after);
    // fixed probes over the whole domain: ends, middle of every span of the current curve, plus generated ones
    std::vector<double> us{b[0], b[1]};
    for (size_t i = 0; i + 1 < k.size(); i++) if (k[i + 1] - k[i] > 1e-9 * w) us.push_back(0.5 * (k[i] + k[i + 1])), us.push_back(k[i] + 0.17 * (k[i + 1] - k[i]));
    for (int i = 0; i < 2; i++) us.push_back(b[0] + w * s.unit());
    for (auto u : us)
    {
        u = std::min(std::max(u, b[0]), b[1]);
        auto R = M.at(u, 1);
        auto v = c.value(u);
        for (size_t x = 0; x < N; x++)
            REQUIRE_MSG(std::abs(v[x] - double(R[0].v[x])) <= M.tol * M.scale, "point moved by " << std::abs(v[x] - double(R[0].v[x])) << " at u=" << u << " after " << after);
        if (M.near_break(u)) continue;
        auto d = c.value(u, 1);
        double ds = 0; for (size_t x = 0; x < N; x++) ds += double(R[1].a[x]);
        for (size_t x = 0; x < N; x++)
            REQUIRE_MSG(std::abs(d[x] - double(R[1].v[x])) <= 100 * M.tol * (ds + M.scale * p / M.K.minspan() * double(std::abs(M.m.B))), "tangent changed from " << double(R[1].v[x]) << " to " << d[x] << " at u=" << u << " after " << after);
    }
}
static size_t mult_of(const std::vector<double> &k, double u) { size_t n = 0; for (auto x : k) n += std::abs(x - u) < 1e-12 * (1 + std::abs(u)); return n; }

template <size_t N, bool rat>
static void history(Src &s)
{
    using C = std::conditional_t<rat, gbs::BSCurveRational<double, N>, gbs::BSCurve<double, N>>;
    size_t p0 = s.in(1, 5);
    KOpt o; o.max_spans = 5; o.ratio = 10;
    Model<N, rat> M; M.K = knots<double>(s, p0, o);
    if constexpr (rat) M.P = hpoints<double, N>(s, M.K.n(), 10, 3); else M.P = points<double, N>(s, M.K.n());
    M.lo = M.K.lo(); M.hi = M.K.hi(); M.scale = 1 + maxabs(M.P) * (rat ? 10 : 1); M.tol = 2e-10;
    C c(M.P, M.K.flat, p0);
    s << "p=" << p0 << " knots=" << show(M.K.flat) << " poles=" << showp(M.P) << " ops:";
    int nops = s.in(1, 8), kinds = 0; unsigned seen = 0;
    for (int i = 0; i < nops; i++)
    {
        size_t p = c.degree(); auto k0 = c.knotsFlats();
        size_t op = s.weighted({5, 2, 3, 2, 2, 3, 3, 1, 2});
        if (!(seen & (1u << op))) { seen |= 1u << op; kinds++; }
        auto distinct = [&] { std::vector<double> d; for (auto x : k0) if (d.empty() || x - d.back() > 1e-10) d.push_back(x); return d; }();
        auto fresh = [&] { // inside a span, away from its ends
            size_t j = s.draw(distinct.size() - 1); double a = distinct[j], b = distinct[j + 1];
            return a + (b - a) * (0.05 + 0.9 * s.unit()); };
        switch (op)
        {
        case 0: // single insertion
        {
            bool existing = s.chance(1, 3);
            double u = existing ? distinct[s.draw(distinct.size())] : fresh();
            size_t m = s.chance(1, 12) ? 0 : s.in(1, int(p) + 1), before = mult_of(k0, u);
            s << " insertKnot(" << u << "," << m << ")";
            auto ip = c.insertKnot(u, m);
            size_t after = mult_of(c.knotsFlats(), u);
            if (u > distinct.front() && u < distinct.back()) REQUIRE_MSG(after == std::min(p, before + m), "multiplicity " << before << " -> " << after);
            else REQUIRE(c.knotsFlats() == k0);
            if (after >= p)
            {
                auto R = M.at(u, 0); std::array<double, N> q;
                if constexpr (rat) q = gbs::weight_projection(c.pole(size_t(ip))); else q = c.pole(size_t(ip));
                for (size_t x = 0; x < N; x++) REQUIRE_MSG(std::abs(q[x] - double(R[0].v[x])) <= M.tol * M.scale, "returned pole index " << ip);
            }
            break;
        }
        case 1: // list of (knot, target multiplicity)
        {
            std::vector<std::pair<double, size_t>> km; int n = s.in(1, 3);
            std::vector<size_t> bef;
            for (int j = 0; j < n; j++) km.push_back({s.chance(1, 3) && distinct.size() > 2 ? distinct[1 + s.draw(distinct.size() - 2)] : fresh(), size_t(s.in(1, int(p)))});
            bool clash = false; for (auto &a : km) for (auto &b : km) if (&a != &b && std::abs(a.first - b.first) < 1e-3 * M.K.minspan() / double(std::abs(M.m.B)) ) clash = true;
            if (clash) km.resize(1);
            for (auto &a : km) bef.push_back(mult_of(k0, a.first));
            s << " insertKnots("; for (auto &a : km) s << a.first << "x" << a.second << " "; s << ")";
            c.insertKnots(km);
            for (size_t j = 0; j < km.size(); j++) REQUIRE(mult_of(c.knotsFlats(), km[j].first) == std::max(bef[j], km[j].second));
            break;
        }
        case 2: // insert then remove, or try to remove a genuine knot
        {
            if (distinct.size() > 2 && s.chance(1, 2))
            {
                double u = distinct[1 + s.draw(distinct.size() - 2)]; size_t mu = mult_of(k0, u), m = 1 + s.draw(mu);
                s << " removeKnot(" << u << ",1e-11," << m << ")";
                c.removeKnot(u, 1e-11 * M.scale, m);
                size_t left = mult_of(c.knotsFlats(), u);
                REQUIRE_MSG(left <= mu && left + m >= mu, "multiplicity " << mu << " -> " << left);
                M.tol += 1e-9; // the removal may move the curve by (a multiple of) its tolerance
                if (rat) M.tol += 1e-8;
            }
            else
            {
                double u = fresh(); size_t m = s.in(1, int(p)), mr = 1 + s.draw(m);
                s << " insertKnot+removeKnot(" << u << "," << m << "," << mr << ")";
                c.insertKnot(u, m);
                c.removeKnot(u, 1e-8 * M.scale, mr);
                REQUIRE_MSG(mult_of(c.knotsFlats(), u) == m - mr, "inserted knot not removable: inserted " << m << " removed " << mr << " left " << mult_of(c.knotsFlats(), u));
            }
            break;
        }
        case 3: // degree elevation
        {
            if (p >= 9) break;
            size_t t = s.in(1, 3);
            s << " increaseDegree(" << t << ")";
            c.increaseDegree(t);
            REQUIRE(c.degree() == p + t);
            for (size_t j = 1; j + 1 < distinct.size(); j++) REQUIRE_MSG(mult_of(c.knotsFlats(), distinct[j]) == mult_of(k0, distinct[j]) + t, "multiplicity of " << distinct[j]);
            M.tol *= 30;
            break;
        }
        case 4: // reversal
        {
            s << " reverse";
            if (s.chance(1, 2)) c.reverse(); else c = c.reversed();
            M.m.A += M.m.B * ((long double)M.lo + M.hi); M.m.B = -M.m.B;
            break;
        }
        case 5: // new bounds
        {
            double a = s.sym(10), b = a + s.real(0.1, 10);
            s << " changeBounds(" << a << "," << b << ")";
            if (s.chance(1, 2)) c.changeBounds(a, b); else c.changeBounds(std::array<double, 2>{a, b});
            // t = A + B*u_old, u_old = lo + (u-a)*(hi-lo)/(b-a)
            long double r = ((long double)M.hi - M.lo) / ((long double)b - a);
            M.m.A += M.m.B * (M.lo - a * r); M.m.B *= r;
            M.lo = a; M.hi = b;
            break;
        }
        case 6: // trim
        {
            double a = s.chance(1, 3) ? M.lo : s.chance(1, 4) ? distinct[s.draw(distinct.size() - 1)] : fresh();
            double b = s.chance(1, 3) ? M.hi : s.chance(1, 4) ? distinct[1 + s.draw(distinct.size() - 1)] : fresh();
            if (a > b) std::swap(a, b);
            double gap = 1e9; for (size_t j = 1; j < distinct.size(); j++) gap = std::min(gap, distinct[j] - distinct[j - 1]);
            if (b - a < 0.05 * gap) break;
            bool swapped = s.chance(1, 4);
            s << " trim(" << (swapped ? b : a) << "," << (swapped ? a : b) << ")";
            if (swapped) c.trim(b, a); else c.trim(a, b);
            M.lo = a; M.hi = b;
            break;
        }
        case 7: // copy
        {
            C d(c); c = d; s << " copy"; break;
        }
        case 8: // full multiplicity somewhere: splits into Bezier pieces
        {
            double u = fresh(); s << " insertKnot(" << u << "," << p << ")"; c.insertKnot(u, p); break;
        }
        }
        same(s, c, M, "edit");
    }
    s.nontrivial(kinds >= 2);
}
PBT_ARM(history_d3, 6000, 200000) { history<3, false>(s); }
PBT_ARM(history_d2, 3000, 100000) { history<2, false>(s); }
PBT_ARM(history_d1, 1500, 50000) { history<1, false>(s); }
PBT_ARM(history_rational_d3, 3000, 100000) { history<3, true>(s); }
PBT_ARM(history_rational_d2, 3000, 100000) { history<2, true>(s); }

// one large elevation (binomial coefficients beyond 32 bit factorials)
PBT_ARM(high_elevation, 1200, 30000)
{
    size_t p = s.in(1, 8), t = s.in(1, 14);
    Model<2, false> M; KOpt o; o.max_spans = 3; o.ratio = 3; o.max_mult = 2; M.K = knots<double>(s, p, o); M.P = points<double, 2>(s, M.K.n());
    // knot removal at high degree is ill conditioned: several spans only for moderate elevations
    if (p + t > 8 && M.K.brk.size() > 2) { M.K.flat.assign(p + 1, M.K.lo()); M.K.flat.insert(M.K.flat.end(), p + 1, M.K.brk.back()); M.K.brk = {M.K.brk.front(), M.K.brk.back()}; M.K.mult = {p + 1, p + 1}; M.P.resize(p + 1); }
    gbs::BSCurve<double, 2> c(M.P, M.K.flat, p);
    M.lo = M.K.lo(); M.hi = M.K.hi(); M.scale = 1 + maxabs(M.P); M.tol = 1e-7;
    s << "p=" << p << " +" << t << " knots=" << show(M.K.flat);
    c.increaseDegree(t);
    REQUIRE(c.degree() == p + t);
    same(s, c, M, "increaseDegree");
    s.nontrivial(p + t > 4);
}
// soft trimming: same points on a smaller domain, then reversal / insertion / elevation keep them
PBT_ARM(soft_trim, 2000, 60000)
{
    size_t p = s.in(1, 4); Model<2, false> M; KOpt o; o.ratio = 10; M.K = knots<double>(s, p, o); M.P = points<double, 2>(s, M.K.n());
    gbs::BSCurve<double, 2> c(M.P, M.K.flat, p);
    double a = M.K.lo() + (M.K.hi() - M.K.lo()) * s.real(0, 0.45), b = M.K.lo() + (M.K.hi() - M.K.lo()) * s.real(0.55, 1);
    c.trim(a, b, false);
    double scale = 1 + maxabs(M.P);
    int op = s.in(0, 3);
    s << "p=" << p << " knots=" << show(M.K.flat) << " trim(" << a << "," << b << ",false) then op " << op;
    double sum = 0;
    if (op == 1) { c.reverse(); sum = M.K.lo() + M.K.hi(); }
    if (op == 2) { c = c.reversed(); sum = M.K.lo() + M.K.hi(); }
    if (op == 3) { c.increaseDegree(1); }
    bool rev = op == 1 || op == 2;
    double lo = rev ? sum - b : a, hi = rev ? sum - a : b;
    auto B = c.bounds();
    REQUIRE_MSG(std::abs(B[0] - lo) < 1e-12 * (1 + std::abs(lo)) && std::abs(B[1] - hi) < 1e-12 * (1 + std::abs(hi)), "bounds " << B[0] << " " << B[1] << " expected " << lo << " " << hi);
    for (double x : {0., 0.3, s.unit(), 1.})
    {
        double u = B[0] + (B[1] - B[0]) * x; u = std::min(u, B[1]);
        auto R = ref::curve<double, 2>(M.K.flat, M.P, p, rev ? sum - u : u, 0);
        auto v = c.value(u);
        for (int i = 0; i < 2; i++) REQUIRE(std::abs(v[i] - double(R[0].v[i])) < 1e-8 * scale);
    }
    s.nontrivial(op > 0);
}
// knots <-> (values, multiplicities) round trip; parametrisation helpers are increasing and cover the range
PBT_ARM(knot_helpers, 3000, 60000)
{
    size_t p = s.in(1, 6); auto K = knots<double>(s, p);
    auto [k, m] = gbs::knots_and_mults(K.flat);
    s << "knots " << show(K.flat);
    REQUIRE(k == K.brk && m == K.mult);
    REQUIRE(gbs::flat_knots(k, m) == K.flat);
    std::vector<size_t> m2; std::vector<double> k2; gbs::unflat_knots(K.flat, m2, k2); REQUIRE(k2 == k && m2 == m);
    auto prs = gbs::unflat_knots(K.flat);
    for (size_t i = 0; i < prs.size(); i++) REQUIRE(prs[i].first == k[i] && prs[i].second == m[i]);
    for (size_t i = 0; i < k.size(); i++) REQUIRE(gbs::multiplicity(K.flat, k[i]) == m[i]);
    REQUIRE(gbs::multiplicity(K.flat, 0.5 * (k[0] + k[1])) == 0);
    auto P = points<double, 3>(s, s.in(2, 12));
    for (size_t i = 1; i < P.size(); i++) if (dist(P[i], P[i - 1]) < 1e-3) P[i][0] += 1;
    for (auto mode : {gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL, gbs::KnotsCalcMode::EQUALLY_SPACED})
        for (bool adim : {false, true})
        {
            auto u = gbs::curve_parametrization(P, mode, adim);
            REQUIRE(u.size() == P.size() && u[0] == 0);
            double tot = 0; std::vector<double> e{0};
            for (size_t i = 1; i < P.size(); i++) { double d = dist(P[i], P[i - 1]); tot += mode == gbs::KnotsCalcMode::CHORD_LENGTH ? d : mode == gbs::KnotsCalcMode::CENTRIPETAL ? std::sqrt(d) : 1. / (P.size() - 1); e.push_back(tot); }
            for (size_t i = 1; i < u.size(); i++) { REQUIRE(u[i] > u[i - 1]); REQUIRE(std::abs(u[i] - (adim ? e[i] / tot : e[i])) < 1e-10 * (1 + tot)); }
        }
    s.nontrivial(K.has_multiple());
}

// poles and knots given to an existing curve, the parts of the edits taken one by one
template <size_t N, bool rat> static void setters(Src &s)
{
    constexpr size_t D = N + rat; using C = std::conditional_t<rat, gbs::BSCurveRational<double, N>, gbs::BSCurve<double, N>>; size_t p = s.in(1, 5); KOpt o; o.ratio = 8; auto K = knots<double>(s, p, o); size_t n = K.n();
    std::vector<std::array<double, D>> P, Q; if constexpr (rat) { P = hpoints<double, N>(s, n, 10, 3); Q = hpoints<double, N>(s, n, 10, 3); } else { P = points<double, N>(s, n); Q = points<double, N>(s, n); }
    C c(P, K.flat, p); double a = s.sym(4), L = s.real(0.2, 5); auto k2 = K.flat; for (auto &x : k2) x = a + L * (x - K.lo()) / (K.hi() - K.lo()); s << "p=" << p << " knots " << show(K.flat) << " then " << show(k2);
    auto is = [&](const C &g, const std::vector<std::array<double, D>> &W, const std::vector<double> &k) { REQUIRE(g.poles() == W && g.knotsFlats() == k && g.degree() == p && g.order() == p + 1); REQUIRE((g.bounds() == std::array<double, 2>{k.front(), k.back()})); REQUIRE(size_t(g.poles_end() - g.poles_begin()) == n && std::equal(g.poles_begin(), g.poles_end(), W.begin())); auto [x, y, z] = g.info(); REQUIRE(x == W && y == k && z == p); C h(W, k, p); for (int i = 0; i < 4; i++) { double u = k.front() + (k.back() - k.front()) * (i < 2 ? double(i) : s.unit()); u = std::min(u, k.back()); size_t d = s.draw(3); REQUIRE_MSG(g.value(u, d) == h.value(u, d), "the curve changed in place is not the one built anew at " << u); } };
    is(c, P, K.flat); REQUIRE(c.isRational() == rat); c.copyPoles(Q); is(c, Q, K.flat); c.copyKnots(k2); is(c, Q, k2); { auto w = P; c.movePoles(w); } is(c, P, k2); size_t i = s.draw(n); c.pole(i) = Q[i]; auto W = P; W[i] = Q[i]; is(c, W, k2);
    int bad = 0; auto sh = P; sh.pop_back(); auto ks = k2; ks.pop_back(); try { c.copyPoles(sh); bad = 1; } catch (std::length_error &) { } try { c.movePoles(sh); bad = 2; } catch (std::length_error &) { } try { c.copyKnots(ks); bad = 3; } catch (std::length_error &) { } try { c.pole(n + s.draw(3)); bad = 4; } catch (std::out_of_range &) { } REQUIRE_MSG(!bad, "request " << bad << " of the wrong size was not refused"); is(c, W, k2);
    if constexpr (rat) { auto pr = gbs::poles_projected<double, N>(W); for (size_t j = 0; j < n; j++) for (size_t x = 0; x < N; x++) REQUIRE(std::abs(pr[j][x] - W[j][x] / W[j][N]) <= 1e-14 * (1 + std::abs(pr[j][x]))); }
    s.nontrivial();
}
PBT_ARM(setters_d2, 300, 9000) { setters<2, false>(s); }
PBT_ARM(setters_rational, 300, 9000) { setters<3, true>(s); }
PBT_ARM(pieces, 600, 20000)
{
    size_t p = s.in(1, 5); KOpt o; o.ratio = 8; auto K = knots<double>(s, p, o); auto P = points<double, 2>(s, K.n()); double sc = 1 + maxabs(P); s << "p=" << p << " knots " << show(K.flat);
    auto at = [&](double u) { u = std::min(std::max(u, K.lo()), K.hi()); return ref::curve<double, 2>(K.flat, P, p, u, 0)[0]; }; auto is = [&](const std::array<double, 2> &x, double u, const char *w) { auto r = at(u); for (int i = 0; i < 2; i++) REQUIRE_MSG(std::abs(x[i] - double(r.v[i])) < 1e-8 * sc, w << " at " << u); };
    // Bezier segments: one per span, each over its own interval
    auto B = gbs::bezier_segments<double, 2>(K.flat, P, p); REQUIRE(B.size() + 1 == K.brk.size()); for (size_t i = 0; i < B.size(); i++) { auto &[b, r] = B[i]; REQUIRE_MSG(b.size() == p + 1 && r.first == K.brk[i] && r.second == K.brk[i + 1], "segment " << i << " has " << b.size() << " poles over " << r.first << "," << r.second); std::vector<double> kb(p + 1, 0.); kb.insert(kb.end(), p + 1, 1.); for (int j = 0; j < 3; j++) { double t = j < 2 ? j : s.unit(); auto x = ref::curve<double, 2>(kb, b, p, t, 0)[0]; is({double(x.v[0]), double(x.v[1])}, r.first + t * (r.second - r.first), "Bezier segment"); }
        size_t e = s.in(1, 4); auto b2 = gbs::increase_bezier_degree(b, p, e); REQUIRE(b2.size() == p + e + 1); std::vector<double> k2(p + e + 1, 0.); k2.insert(k2.end(), p + e + 1, 1.); double t = s.unit(); auto x = ref::curve<double, 2>(k2, b2, p + e, t, 0)[0]; is({double(x.v[0]), double(x.v[1])}, r.first + t * (r.second - r.first), "elevated segment"); }
    // one end trimmed
    bool first = s.chance(1, 2); double u = s.chance(1, 3) ? K.brk[s.in(1, int(K.brk.size()) - 1) - (K.brk.size() > 2 ? 0 : 1)] : K.lo() + s.real(0.05, 0.95) * (K.hi() - K.lo()); if (u <= K.lo() || u >= K.hi()) u = 0.5 * (K.lo() + K.hi()); double gap = 1e300; for (auto b : K.brk) if (b != u) gap = std::min(gap, std::abs(b - u)); DISCARD_IF(gap < 1e-4 * (K.hi() - K.lo()));
    auto k = K.flat; auto q = P; if (first) gbs::trim_begin<double, 2>(p, k, q, u); else gbs::trim_end<double, 2>(p, k, q, u); REQUIRE_MSG(k.size() == q.size() + p + 1 && (first ? k.front() == u && k.back() == K.hi() : k.back() == u && k.front() == K.lo()), "bounds of the part " << show(k)); size_t e0 = std::count(k.begin(), k.end(), k.front()), e1 = std::count(k.begin(), k.end(), k.back()); REQUIRE(e0 == p + 1 && e1 == p + 1); for (int i = 0; i < 3; i++) { double t = k.front() + (k.back() - k.front()) * s.unit(); auto x = ref::curve<double, 2>(k, q, p, t, 0)[0]; is({double(x.v[0]), double(x.v[1])}, t, "part"); }
    // knots one at a time, and the tolerant removal that takes them back
    k = K.flat; q = P; size_t m = std::count(k.begin(), k.end(), u), r = s.in(1, 3), got = m >= p ? 0 : std::min(r, p - m); if (s.chance(1, 2)) gbs::insert_knots(u, p, r, k, q); else for (size_t i = 0; i < r; i++) gbs::insert_knot(u, p, k, q); REQUIRE_MSG(k.size() == K.flat.size() + got && q.size() == P.size() + got && std::is_sorted(k.begin(), k.end()) && size_t(std::count(k.begin(), k.end(), u)) == m + got, "knots after insertion " << show(k)); for (int i = 0; i < 3; i++) { double t = K.lo() + (K.hi() - K.lo()) * s.unit(); auto x = ref::curve<double, 2>(k, q, p, t, 0)[0]; is({double(x.v[0]), double(x.v[1])}, t, "after insertion"); }
    if (got) { size_t gone = gbs::remove_knot(u, p, got, k, q, 1e-7 * sc); REQUIRE_MSG(gone == got && k.size() == K.flat.size() && q.size() == P.size(), "an inserted knot was not taken back: " << gone << " of " << got); for (size_t i = 0; i < P.size(); i++) REQUIRE_MSG(dist(q[i], P[i]) < 1e-5 * sc, "pole " << i << " not restored"); }
    // ordered insertions
    auto v = K.brk; double w = s.chance(1, 3) ? v[s.draw(v.size())] : K.lo() + s.real(-.2, 1.2) * (K.hi() - K.lo()); if (s.chance(1, 4)) w = v[s.draw(v.size())] * (1 + s.one_of({-1., 1.}) * 2e-16); auto v2 = v; gbs::insert_ordered(v2, w); REQUIRE(v2.size() == v.size() + 1 && std::is_sorted(v2.begin(), v2.end()) && std::count(v2.begin(), v2.end(), w) == std::count(v.begin(), v.end(), w) + 1);
    double tol = s.chance(1, 2) ? gbs::knot_eps<double> : s.real(1e-3, .3), d0 = 1e300; for (auto x : v) d0 = std::min(d0, std::abs(x - w)); DISCARD_IF(std::abs(d0 - tol) < 1e-15 && d0 > 0); v2 = v; gbs::insert_unique_ordered(v2, w, tol); REQUIRE_MSG(std::is_sorted(v2.begin(), v2.end()) && v2.size() == v.size() + (d0 > tol), "a value " << d0 << " away from the nearest was " << (v2.size() > v.size() ? "inserted" : "left out") << ", tolerance " << tol);
    auto kk = K.flat; gbs::adimension(kk); for (size_t i = 0; i < kk.size(); i++) REQUIRE(std::abs(kk[i] - (K.flat[i] - K.lo()) / (K.hi() - K.lo())) < 1e-13); s.nontrivial(K.brk.size() > 2);
}
// a parameter equal to a knot up to rounding is that knot: no second knot beside it, and later edits keep the curve
template <size_t N, bool rat> static void near_knot(Src &s)
{
    auto A = gcrv<N, rat>(s, 1, 5); auto c = A.make(); double sc = A.scale(), w = A.K.hi() - A.K.lo(); int no = s.in(1, 3); double lo = A.K.lo(), hi = A.K.hi(); s << "p=" << A.K.p << " knots " << show(A.K.flat); bool off = false;
    for (int i = 0; i < no; i++)
    {
        double b = A.K.brk[s.draw(A.K.brk.size())]; int how = s.in(0, 5); double e = how == 0 ? 0 : how == 1 ? 4e-16 * std::max(1., std::abs(b)) : s.real(0.02, 0.45) * gbs::knot_eps<double>; if (s.chance(1, 2)) e = -e; double u = b + e; if (b < lo - 1e-3 * w || b > hi + 1e-3 * w) continue; u = std::min(std::max(u, lo), hi); off = off || u != b; int op = s.in(0, 3);
        if (op >= 2 && (u - lo < 1e-3 * w || hi - u < 1e-3 * w)) op = 0; s << "; " << (op == 0 ? "insert" : op == 1 ? "insert list" : op == 2 ? "cut head" : "cut tail") << " at knot " << b << " + " << u - b;
        if (op == 0) { size_t m = s.in(1, int(A.K.p)); c.insertKnot(u, m); }
        else if (op == 1) { std::vector<std::pair<double, size_t>> km{{u, size_t(s.in(1, int(A.K.p)))}}; c.insertKnots(km); }
        else if (op == 2) { c.trim(u, hi); lo = u; } else { c.trim(lo, u); hi = u; }
        auto &k = c.knotsFlats(); size_t p = c.degree(); REQUIRE(k.size() == c.poles().size() + p + 1 && std::is_sorted(k.begin(), k.end()));
        for (size_t j = 1; j < k.size(); j++) REQUIRE_MSG(k[j] == k[j - 1] || k[j] - k[j - 1] > gbs::knot_eps<double> || std::abs(k[j] - k.front()) < 1e-13 || std::abs(k.back() - k[j]) < 1e-13, "two knots " << k[j - 1] << " and " << k[j] << " only " << k[j] - k[j - 1] << " apart");
        auto [U, M] = gbs::knots_and_mults(k); REQUIRE_MSG(M.front() == p + 1 && M.back() == p + 1, "end multiplicities " << M.front() << "," << M.back() << " of " << show(k)); for (size_t j = 1; j + 1 < M.size(); j++) REQUIRE_MSG(M[j] <= p, "knot " << U[j] << " has multiplicity " << M[j]);
        if (s.chance(1, 3)) c.increaseDegree();
        auto bo = c.bounds(); REQUIRE(std::abs(bo[0] - lo) < 1e-13 && std::abs(bo[1] - hi) < 1e-13);
        for (int j = 0; j < 6; j++) { double t = j == 0 ? bo[0] : j == 1 ? bo[1] : bo[0] + s.unit() * (bo[1] - bo[0]); near<N>(c.value(t), A.val(t), 1e-8 * sc, "point moved", t); }
    }
    s.nontrivial(off);
}
PBT_ARM(near_knot_poly, 2000, 60000) { near_knot<3, false>(s); }
PBT_ARM(near_knot_rational, 1000, 30000) { near_knot<2, true>(s); }
