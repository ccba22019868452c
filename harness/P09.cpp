#include "gen.h"
#include "shapes.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscapprox.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscbuild.h>
const char *pbt_property = "P09";
const char *pbt_rule = "families of 2..4 random curves (polynomial or rational, different degrees, domains and knots) unified, pairs joined, connected with C2/C3/Cn blends and extended at either end to a point or by a length; surfaces unified, joined, split and extended on each of their four sides; oracle: quad-precision evaluation of the originals under the documented parameter maps, matching derivatives at the junctions; non-trivial: degrees or knots of the inputs differ, or an extension / junction of continuity >= 1";
using namespace gen;

template <size_t N, bool rat> static void unify(Src &s)
{
    int n = s.in(2, 4); std::vector<Crv<N, rat>> L; for (int i = 0; i < n; i++) L.push_back(gcrv<N, rat>(s, 1, 4, 3));
    // knots of different curves, once on the same domain, must be clearly equal or clearly different
    std::vector<double> all; for (auto &c : L) for (auto b : c.K.brk) all.push_back((b - c.K.lo()) / (c.K.hi() - c.K.lo()));
    std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); i++) { double d = all[i] - all[i - 1]; DISCARD_IF(d > 1e-15 && d < 1e-4); }
    s << n << " curves:"; for (auto &c : L) s << " [p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 6) << "]";
    std::vector<std::tuple<std::vector<std::array<double, N + rat>>, std::vector<double>, size_t>> R;
    int how = s.in(0, 1);
    if (how == 0)
    {
        std::vector<typename Crv<N, rat>::C> cs; for (auto &c : L) cs.push_back(c.make());
        auto info = gbs::get_bs_curves_info<double, N>(cs.begin(), cs.end());
        gbs::unify_degree(info); gbs::unify_knots(info);
        for (auto &[P, k, p] : info) R.push_back({P, k, p});
    }
    else
    {
        std::list<typename Crv<N, rat>::C> cs; for (auto &c : L) cs.push_back(c.make());
        auto u = gbs::unified_curves(cs); for (auto &c : u) R.push_back({c.poles(), c.knotsFlats(), c.degree()});
    }
    REQUIRE(R.size() == L.size());
    size_t pm = 0; for (auto &c : L) pm = std::max(pm, c.K.p);
    bool diff = false;
    for (int i = 0; i < n; i++)
    {
        auto &[P, k, p] = R[i];
        REQUIRE(p == pm && P.size() + p + 1 == k.size());
        REQUIRE_MSG(knots_close(k, std::get<1>(R[0])), "curve " << i << " knots " << show(k) << " vs " << show(std::get<1>(R[0])));
        Crv<N, rat> r; r.K.flat = k; r.K.p = p; r.P = P; r.K.brk = {k.front(), k.back()};
        for (int j = 0; j <= 12; j++)
        {
            double x = j < 10 ? j / 9. : s.unit();
            near<N>(r.val(k.front() + x * (k.back() - k.front())), L[i].val(L[i].K.lo() + x * (L[i].K.hi() - L[i].K.lo())), 2e-8 * L[i].scale(), "unified curve moved", x);
        }
        if (L[i].K.p != L[0].K.p || L[i].K.flat != L[0].K.flat) diff = true;
        // knots: exactly the union with the highest multiplicities
    }
    s.nontrivial(diff);
}
PBT_ARM(unify_d2, 3000, 60000) { unify<2, false>(s); }
PBT_ARM(unify_rational_d3, 1500, 40000) { unify<3, true>(s); }
template <size_t N, bool r1, bool r2> static void join(Src &s)
{
    auto a = gcrv<N, r1>(s); auto b = gcrv<N, r2>(s);
    bool touching = s.chance(3, 4);
    std::array<double, N> end = a.val(a.K.hi());
    if (touching) { if constexpr (r2) { for (size_t c = 0; c < N; c++) b.P[0][c] = end[c] * b.P[0][N]; } else b.P[0] = end; }
    s << "p=" << a.K.p << "," << b.K.p << " knots=" << show(a.K.flat) << " / " << show(b.K.flat) << " touching=" << touching;
    auto j = gbs::join(a.make(), b.make());
    double sc = std::max(a.scale(), b.scale()), la = a.K.hi() - a.K.lo(), lb = b.K.hi() - b.K.lo();
    auto B = j.bounds(); REQUIRE(std::abs(B[0] - a.K.lo()) < 1e-12 * (1 + std::abs(B[0])) && std::abs(B[1] - (a.K.hi() + lb)) < 1e-11 * (1 + std::abs(B[1])));
    near<N>(j.value(B[0]), a.val(a.K.lo()), 1e-9 * sc, "start of the join", 0); near<N>(j.value(B[1]), b.val(b.K.hi()), 1e-9 * sc, "end of the join", 1);
    auto mid = a.val(a.K.hi()); auto m2 = b.val(b.K.lo()); for (size_t c = 0; c < N; c++) mid[c] = 0.5 * (mid[c] + m2[c]);
    near<N>(j.value(a.K.hi()), mid, 1e-9 * sc, "joint", 0.5);
    if (touching) for (int i = 0; i <= 10; i++)
    {
        double x = i < 8 ? i / 8. : s.unit();
        near<N>(j.value(std::min(a.K.lo() + la * x, a.K.hi())), a.val(a.K.lo() + la * x), 2e-8 * sc, "first curve moved", x);
        near<N>(j.value(std::min(a.K.hi() + lb * x, B[1])), b.val(b.K.lo() + lb * x), 2e-8 * sc, "second curve moved", x);
    }
    s.nontrivial(touching && (a.K.p != b.K.p || a.K.n() != b.K.n()));
}
PBT_ARM(join_d2, 2000, 50000) { join<2, false, false>(s); }
PBT_ARM(join_rational_d2, 1500, 40000) { join<2, true, true>(s); }
PBT_ARM(join_rational_d3, 1000, 30000) { join<3, true, true>(s); }
PBT_ARM(join_mixed_d3, 1000, 30000) { s.draw(2) ? join<3, true, false>(s) : join<3, false, true>(s); }
PBT_ARM(join_d1, 500, 20000) { join<1, false, false>(s); }

// the blend starts with the derivatives of the end of c1 and ends with those of the start of c2
template <size_t N> static void blend_ok(const gbs::BSCurve<double, N> &c, const std::vector<std::array<double, N>> &D1, const std::vector<std::array<double, N>> &D2, double tol)
{
    for (auto &P : c.poles()) for (auto x : P) REQUIRE(std::isfinite(x));
    auto b = c.bounds(); double w = b[1] - b[0], big = maxabs(c.poles()); size_t p = c.degree();
    double h = w; { auto &k = c.knotsFlats(); for (size_t i = 1; i < k.size(); i++) if (k[i] > k[i - 1]) h = std::min(h, k[i] - k[i - 1]); }
    for (size_t d = 0; d < D1.size(); d++)
    {
        double amp = tol * (big + 1) * std::pow(2. * p / h, double(d)) + tol * mag(D1[d]) + tol * mag(D2[d]);
        near<N>(c.value(b[0], d), D1[d], amp, "blend start derivative", double(d)); near<N>(c.value(b[1], d), D2[d], amp, "blend end derivative", double(d));
    }
}
template <size_t N> static void connect(Src &s)
{
    auto a = gcrv<N, false>(s, 3, 5, 3), b = gcrv<N, false>(s, 3, 5, 3); for (auto &P : b.P) P[0] += 25; // apart from each other
    // domains commensurate with the size
    for (auto *c : {&a, &b}) { double lo = c->K.lo(), L = (c->K.hi() - lo) / 10; for (auto &x : c->K.flat) x = (x - lo) / L; for (auto &x : c->K.brk) x = (x - lo) / L; }
    std::vector<std::array<double, N>> A, B; for (size_t d = 0; d < 4; d++) { A.push_back(a.val(a.K.hi(), d)); B.push_back(b.val(b.K.lo(), d)); }
    auto ca = a.make(), cb = b.make(); int how = s.in(0, N == 2 ? 6 : 4); s << "how=" << how << " a=" << showp(a.P, 6) << " b=" << showp(b.P, 6);
    auto cut = [&](std::vector<std::array<double, N>> v, size_t n) { v.resize(n); return v; };
    double t1 = s.real(0, 1), t2 = s.real(0, 1);
    if (how == 0) blend_ok<N>(gbs::c2_connect(ca, cb), cut(A, 3), cut(B, 3), 1e-10);
    if (how == 1) blend_ok<N>(gbs::c3_connect(ca, cb), cut(A, 4), cut(B, 4), 1e-10);
    if (how == 2) { auto A2 = A, B2 = B; for (auto &x : A2[3]) x *= t1; for (auto &x : B2[3]) x *= t2; blend_ok<N>(gbs::c2_connect(ca, cb, t1, t2), A2, B2, 1e-10); }
    if (how == 3) { size_t n = s.in(1, 3), p = s.in(int(n) + (n > 1), 2 * int(n) + 2); double du = s.real(0.5, 20); s << " n=" << n << " p=" << p << " du=" << du; p = std::min(p, 2 * n + 1); DISCARD_IF(p < n + 1 || 2 * n + 2 < p + 1); auto c = gbs::cn_connect(ca, cb, du, p, n); REQUIRE(std::abs(c.bounds()[1] - du) < 1e-13 * du); blend_ok<N>(c, cut(A, n + 1), cut(B, n + 1), 1e-9); }
    if (how == 4) { double e = s.real(0.2, 3); s << " e=" << e; std::array<double, N> dt; double m = 0; for (size_t i = 0; i < N; i++) { dt[i] = A[1][i] - B[1][i]; m += dt[i] * dt[i]; } DISCARD_IF(m < 1e-6); blend_ok<N>(gbs::c2_connect(ca, cb, e), cut(A, 3), cut(B, 3), 1e-9); }
    if constexpr (N == 2)
    {
        if (how == 5) { double e = s.real(0.2, 3); s << " e=" << e; blend_ok<2>(gbs::c3_connect(ca, cb, e), A, B, 1e-8); }
        if (how == 6)
        {
            // start from c1 at u1 and arrive on c2 at u2, each curve followed forwards (true) or backwards (false)
            double u1 = a.K.lo() + 10 * s.unit(), u2 = b.K.lo() + 10 * s.unit(); bool s1 = s.chance(1, 2), s2 = s.chance(1, 2); double e = s.real(0.2, 3);
            s << " u1=" << u1 << " u2=" << u2 << " sides " << s1 << s2 << " e=" << e;
            std::vector<std::array<double, 2>> D1, D2; for (size_t d = 0; d < 3; d++) { auto x = a.val(u1, d), y = b.val(u2, d); if (d == 1) { if (!s1) x = {-x[0], -x[1]}; if (!s2) y = {-y[0], -y[1]}; } D1.push_back(x); D2.push_back(y); }
            blend_ok<2>(gbs::c2_connect(ca, cb, u1, u2, s1, s2, e), D1, D2, 1e-9);
        }
    }
    s.nontrivial();
}
PBT_ARM(connect_d2, 2000, 50000) { connect<2>(s); }
PBT_ARM(connect_d3, 1000, 30000) { connect<3>(s); }

template <size_t N, bool rat> static void extend(Src &s)
{
    auto a = gcrv<N, rat>(s, 1, 5, 3); auto c = a.make(); bool at_end = s.chance(1, 2), natural = s.chance(1, 2); std::optional<size_t> mc; if (s.chance(1, 2)) mc = s.in(0, int(a.K.p) + 1);
    size_t p = a.K.p; double sc = a.scale();
    auto t = a.val(at_end ? a.K.hi() : a.K.lo(), 1); auto e = a.val(at_end ? a.K.hi() : a.K.lo()); double tn = mag(t); DISCARD_IF(tn < 0.3);
    bool bylen = s.chance(1, 3); double l = s.real(0.5, 5); std::array<double, N> pt;
    for (size_t i = 0; i < N; i++) pt[i] = e[i] + (bylen ? (at_end ? 1 : -1) * t[i] / tn * l : 0);
    if (!bylen) { double m = 0; do { m = 0; for (size_t i = 0; i < N; i++) { double x = s.sym(4); pt[i] = e[i] + x; m += x * x; } if (m < 0.25) pt[0] += 1; } while (0); }
    bool rel = bylen && s.chance(1, 3);
    s << "p=" << p << " knots=" << show(a.K.flat) << " poles=" << showp(a.P, 8) << " at_end=" << at_end << " natural=" << natural << " max_cont=" << (mc ? int(*mc) : -1) << (bylen ? " by length " : " to point ") << l << " relative=" << rel;
    double len = 0;
    if (rel) { len = gbs::length(c); DISCARD_IF(len < 0.5); }
    auto x = bylen ? gbs::extended(c, rel ? l / len : l, at_end, rel, natural, mc) : gbs::extended_to_point(c, pt, at_end, natural, mc);
    auto B = x.bounds(); auto b = c.bounds();
    if (at_end) REQUIRE(std::abs(B[0] - b[0]) < 1e-11 * (1 + std::abs(b[0])) && B[1] > b[1]); else REQUIRE_MSG(std::abs(B[1] - b[1]) < 1e-9 * (1 + std::abs(b[1]) + B[1] - B[0]) && B[0] < b[0], B[0] << " " << B[1]);
    double ext = at_end ? B[1] - b[1] : b[0] - B[0], w = b[1] - b[0]; DISCARD_IF(ext < 1e-3 * w || ext > 1e4 * w);
    near<N>(at_end ? x.end() : x.begin(), pt, (rel ? 1e-4 : 1e-8) * sc, "target of the extension", 0);
    for (int i = 0; i <= 9; i++) { double f = i < 7 ? 0.0001 + 0.9998 * i / 6. : 0.0001 + 0.9998 * s.unit(), u = b[0] + w * f; near<N>(x.value(u), a.val(u), 1e-7 * sc * (1 + ext / w * 1e-6), "original part moved", f); }
    // continuity at the junction, seen from the extension side
    double uj = at_end ? b[1] : b[0], side = std::min(ext, w) * 1e-9 * (at_end ? 1 : -1);
    size_t nc = p >= 1 ? std::min(p - 1, mc.value_or(p)) : 0;
    double big = maxabs(x.poles());
    for (size_t d = 0; d <= nc && d <= 2; d++)
    {
        auto v = x.value(uj + side, d), o = a.val(uj, d); auto nxt = x.value(uj + side, d + 1);
        near<N>(v, o, 1e-7 * (big + 1) * std::pow(2. * p / std::min(w / 3, ext / 3), double(d)) + 10 * std::abs(side) * (mag(nxt) + 1), "derivative at the junction", double(d));
    }
    if (natural && p > 2) { auto v = x.value(at_end ? B[1] : B[0], 2); REQUIRE_MSG(mag(v) <= 1e-7 * (1 + big) * std::pow(2. * p / std::min(w / 3, ext / 3), 2), "second derivative at the natural end " << mag(v)); }
    s.nontrivial(nc >= 1);
}
PBT_ARM(extend_d2, 2000, 50000) { extend<2, false>(s); }
PBT_ARM(extend_d3, 1500, 40000) { extend<3, false>(s); }
PBT_ARM(extend_rational_d2, 1000, 30000) { extend<2, true>(s); }
PBT_ARM(add_dimension, 1500, 30000)
{
    auto a = gcrv<2, false>(s); auto r = gcrv<2, true>(s); double v = s.sym(5); s << "value " << v << " weights " << showp(r.P, 4);
    auto A = gbs::add_dimension(a.make(), v); auto R = gbs::add_dimension(r.make(), v);
    for (int i = 0; i < 5; i++)
    {
        double x = i < 3 ? i / 2. : s.unit(); double u = a.K.lo() + x * (a.K.hi() - a.K.lo()), w = r.K.lo() + x * (r.K.hi() - r.K.lo()); u = std::min(u, a.K.hi()); w = std::min(w, r.K.hi());
        auto p = a.val(u), q = r.val(w); near<3>(A.value(u), std::array<double, 3>{p[0], p[1], v}, 1e-9 * a.scale(), "add_dimension", u); near<3>(R.value(w), std::array<double, 3>{q[0], q[1], v}, 1e-9 * r.scale(), "rational add_dimension", w);
    }
    s.nontrivial(v != 0);
}
// ---------------------------------------------------------------- surfaces
PBT_ARM(surface_unify, 1200, 30000)
{
    int n = s.in(2, 3); std::vector<Srf<false>> L; std::vector<gbs::BSSurfaceInfo<double, 3>> info; size_t p = s.in(1, 3), q = s.in(1, 3);
    for (int i = 0; i < n; i++) { auto S = gsrf<false>(s, 1, 1); KOpt o; o.max_spans = 3; o.ratio = 4; S.U = knots<double>(s, p, o); S.V = knots<double>(s, q, o);
        for (auto *K : {&S.U, &S.V}) if (std::abs(K->lo()) > 5 || K->hi() - K->lo() > 5) { double lo = K->lo(), w = K->hi() - lo; for (auto &x : K->flat) x = (x - lo) / w; for (auto &x : K->brk) x = (x - lo) / w; }
        S.P = points<double, 3>(s, S.U.n() * S.V.n()); L.push_back(S); info.push_back(S.make().info()); }
    for (int d = 0; d < 2; d++) { std::vector<double> all; for (auto &S : L) { auto &K = d ? S.V : S.U; for (auto b : K.brk) all.push_back((b - K.lo()) / (K.hi() - K.lo())); } std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); i++) { double x = all[i] - all[i - 1]; DISCARD_IF(x > 1e-15 && x < 1e-4); } }
    s << n << " surfaces of degree " << p << "," << q; for (auto &S : L) s << " [" << show(S.U.flat) << " x " << show(S.V.flat) << "]";
    gbs::unify_knots(info);
    for (int i = 0; i < n; i++)
    {
        auto &[P, ku, kv, pp, qq] = info[i];
        REQUIRE(knots_close(ku, std::get<1>(info[0])) && knots_close(kv, std::get<2>(info[0])) && pp == p && qq == q);
        size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1; REQUIRE(P.size() == nv); std::vector<std::array<double, 3>> flat; for (auto &row : P) { REQUIRE(row.size() == nu); flat.insert(flat.end(), row.begin(), row.end()); }
        Srf<false> R; R.U.flat = ku; R.U.p = p; R.V.flat = kv; R.V.p = q; R.P = flat;
        for (int k = 0; k < 9; k++) { double x = s.unit(), y = s.unit(); if (k == 0) x = y = 0; if (k == 1) x = y = 1; near<3>(R.val(ku.front() + x * (ku.back() - ku.front()), kv.front() + y * (kv.back() - kv.front())), L[i].val(L[i].U.lo() + x * (L[i].U.hi() - L[i].U.lo()), L[i].V.lo() + y * (L[i].V.hi() - L[i].V.lo())), 1e-8 * L[i].scale(), "unified surface moved", x); }
    }
    s.nontrivial();
}
template <bool rat> static void surface_join_split(Src &s)
{
    auto A = gsrf<rat>(s); auto S = A.make(); double sc = A.scale(); bool inv = s.chance(1, 2); double x = s.real(0.1, 0.9); if (s.chance(1, 4)) { auto &kb = inv ? A.V.brk : A.U.brk; double b = kb[s.draw(kb.size())], e = s.sym(0.4) * gbs::knot_eps<double>; if (b > 0.01 && b < 0.99) x = b + (s.chance(1, 2) ? e : 0); }
    s << "p=" << A.U.p << " q=" << A.V.p << " ku=" << show(A.U.flat) << " kv=" << show(A.V.flat) << (inv ? " split v " : " split u ") << x;
    auto [S1, S2] = inv ? gbs::split_v(S, x) : gbs::split_u(S, x);
    auto b1 = S1.bounds(), b2 = S2.bounds(); int k = inv ? 2 : 0;
    REQUIRE(std::abs(b1[k] - 0) < 1e-13 && std::abs(b1[k + 1] - x) < 1e-13 && std::abs(b2[k] - x) < 1e-13 && std::abs(b2[k + 1] - 1) < 1e-13);
    for (int i = 0; i < 8; i++) { double f = s.unit(), g = s.unit(); double t1 = f * x, t2 = x + f * (1 - x); t1 = std::min(t1, b1[k + 1]); t2 = std::max(std::min(t2, 1.), b2[k]);
        auto v1 = inv ? S1.value(g, t1) : S1.value(t1, g), v2 = inv ? S2.value(g, t2) : S2.value(t2, g); near<3>(v1, inv ? A.val(g, t1) : A.val(t1, g), 1e-8 * sc, "first part", f); near<3>(v2, inv ? A.val(g, t2) : A.val(t2, g), 1e-8 * sc, "second part", f); }
    if (!inv)
    {
        bool el = s.chance(1, 2); if (el) { if (s.chance(1, 2)) S1.increaseDegreeU(); else S2.increaseDegreeU(); }
        auto J = gbs::join(S1, S2); auto b = J.bounds(); REQUIRE(std::abs(b[0]) < 1e-12 && std::abs(b[1] - 1) < 1e-12);
        for (int i = 0; i < 9; i++) { double f = i == 0 ? x : s.unit(), g = s.unit(); near<3>(J.value(std::min(f, b[1]), g), A.val(f, g), 1e-8 * sc, "joined surface", f); }
        REQUIRE(J.degreeU() == A.U.p + el && J.degreeV() == A.V.p);
    }
    s.nontrivial();
}
PBT_ARM(surface_join_split_poly, 1500, 40000) { surface_join_split<false>(s); }
PBT_ARM(surface_join_split_rational, 1000, 30000) { surface_join_split<true>(s); }
PBT_ARM(surface_extend, 1500, 40000)
{
    auto A = gsrf<false>(s, 1, 4); auto S = A.make(); double sc = A.scale(), l = s.real(0.5, 4); bool natural = s.chance(1, 2); std::optional<size_t> mc; if (s.chance(1, 2)) mc = s.in(0, 4); int side = s.in(0, 3);
    s << "p=" << A.U.p << " q=" << A.V.p << " ku=" << show(A.U.flat) << " kv=" << show(A.V.flat) << " side " << side << " l=" << l << " natural=" << natural << " max_cont=" << (mc ? int(*mc) : -1);
    auto loc = side == 0 ? gbs::SurfaceBound::U_START : side == 1 ? gbs::SurfaceBound::U_END : side == 2 ? gbs::SurfaceBound::V_START : gbs::SurfaceBound::V_END;
    auto X = gbs::extended(S, l, loc, natural, mc); auto b = X.bounds(); bool v = side >= 2, start = side % 2 == 0; int k = v ? 2 : 0;
    double e = b[k + 1] - b[k] - 1; REQUIRE_MSG(e > 0, "no extension: bounds " << b[0] << "," << b[1] << "," << b[2] << "," << b[3]); REQUIRE(std::abs(b[2 - k]) < 1e-12 && std::abs(b[3 - k] - 1) < 1e-12);
    size_t p = v ? A.V.p : A.U.p; double off = b[k] + (start ? e : 0); // where the original starts now
    auto at = [&](double t, double g, size_t d) { auto q = std::min(std::max(t, b[k]), b[k + 1]); return v ? X.value(g, q, 0, d) : X.value(q, g, d, 0); };
    auto orig = [&](double t, double g, size_t d) { return v ? A.val(g, t, 0, d) : A.val(t, g, d, 0); };
    for (int i = 0; i < 10; i++) { double f = i == 0 ? 0.0001 : i == 1 ? 0.9999 : s.unit(), g = s.unit(); near<3>(at(off + f, g, 0), orig(f, g, 0), 1e-7 * sc, "original part moved", f); }
    size_t nc = std::min(p - 1, mc.value_or(p)); double h = std::min(e, 0.1);
    for (size_t d = 0; d <= nc && d <= 2; d++) { double g = s.unit(); double q = start ? off - 1e-9 * h : off + 1 + 1e-9 * h; auto nx = at(q, g, d + 1); near<3>(at(q, g, d), orig(start ? 0 : 1, g, d), 1e-6 * (maxabs(X.poles()) + 1) * std::pow(2. * p / h, double(d)) + 1e-8 * h * (1 + mag(nx)), "derivative across the junction", double(d)); }
    // the added part alone: outwards along its first parameter
    { auto E = gbs::extention(S, l, loc, natural, mc); auto eb = E.bounds(); std::vector<std::array<double, 3>> c1, c2; for (double f : {0., 1.}) for (double g : {0., 1.}) { c1.push_back(E.value(f ? eb[1] : eb[0], g ? eb[3] : eb[2])); c2.push_back(at(start ? (f ? off : b[k]) : (f ? b[k + 1] : off + 1), g, 0)); } for (auto &x : c1) { double d = 1e300; for (auto &y : c2) d = std::min(d, dist(x, y)); REQUIRE_MSG(d <= 1e-6 * sc, "a corner of the added part, " << show(x) << ", is none of the extended surface's"); } for (auto &x : c2) { double d = 1e300; for (auto &y : c1) d = std::min(d, dist(x, y)); REQUIRE_MSG(d <= 1e-6 * sc, "the added part misses the corner " << show(x)); } double om = start ? b[k] + e / 2 : off + 1 + e / 2; near<3>(E.value((eb[0] + eb[1]) / 2, (eb[2] + eb[3]) / 2), at(om, 0.5, 0), 1e-6 * (sc + maxabs(X.poles())), "middle of the added part", om); }
    // corners are extended along the tangent by the length asked for
    for (double g : {0., 1.}) { auto o = orig(start ? 0 : 1, g, 0), t = orig(start ? 0 : 1, g, 1); double m = mag(t); DISCARD_IF(m < 0.3); std::array<double, 3> w; for (int c = 0; c < 3; c++) w[c] = o[c] + (start ? -1 : 1) * t[c] / m * l; near<3>(at(start ? b[k] : b[k + 1], g, 0), w, 1e-7 * sc, "extended corner", g); }
    s.nontrivial(nc > 0);
}
PBT_ARM(surface_extend_to_curve, 800, 20000)
{
    auto A = gsrf<false>(s, 1, 4); auto S = A.make(); auto r = s.bulk(); std::vector<std::array<double, 3>> Q; size_t nu = A.U.n();
    for (size_t j = 0; j < A.V.n(); j++) { auto x = A.P[nu - 1 + nu * j]; x[0] += 4 + r.range(-1, 1); x[1] += r.range(-1, 1); x[2] += r.range(-1, 1); Q.push_back(x); }
    gbs::BSCurve<double, 3> c(Q, A.V.flat, A.V.p); bool natural = s.chance(1, 2); s << "p=" << A.U.p << " q=" << A.V.p << " natural=" << natural;
    auto X = gbs::extended_to_curve(S, c, natural); auto b = X.bounds(); REQUIRE(b[1] > 1);
    for (int i = 0; i < 8; i++) { double g = i == 0 ? 0 : i == 1 ? 1 : s.unit(), f = 0.9999 * s.unit(); near<3>(X.value(b[1], g), c.value(g), 1e-8 * A.scale(), "curve not reached", g); near<3>(X.value(f, g), A.val(f, g), 1e-7 * A.scale(), "original part moved", f); }
    s.nontrivial();
}
PBT_ARM(surface_add_dimension, 500, 10000)
{
    auto A = gsrf<false>(s); Srf<true> R = gsrf<true>(s); double v = s.sym(5); auto X = gbs::add_dimension(A.make(), v); auto Y = gbs::add_dimension(R.make(), v); s << "value " << v;
    for (int i = 0; i < 5; i++) { double f = s.unit(), g = s.unit(); auto a = A.val(f, g), b = R.val(f, g); near<4>(X.value(f, g), std::array<double, 4>{a[0], a[1], a[2], v}, 1e-9 * A.scale(), "add_dimension", f); near<4>(Y.value(f, g), std::array<double, 4>{b[0], b[1], b[2], v}, 1e-9 * R.scale(), "rational add_dimension", f); }
    s.nontrivial(v != 0);
}
PBT_ARM(has_nurbs, 200, 3000)
{
    std::vector<std::unique_ptr<gbs::Curve<double, 2>>> own; std::list<gbs::Curve<double, 2> *> L; bool any = false; int n = s.in(0, 5); for (int i = 0; i < n; i++) { int k = s.in(0, 3); if (k == 0) { own.push_back(std::make_unique<gbs::BSCurveRational<double, 2>>(gcrv<2, true>(s, 1, 3, 2).make())); any = true; } else if (k == 1) own.push_back(std::make_unique<gbs::Line<double, 2>>(std::array<double, 2>{0, 0}, std::array<double, 2>{1, double(i)})); else own.push_back(std::make_unique<gbs::BSCurve<double, 2>>(gcrv<2, false>(s, 1, 3, 2).make())); L.push_back(own.back().get()); s << k << " "; } REQUIRE_MSG(gbs::has_nurbs(L) == any, "has_nurbs is " << !any); s.nontrivial(n > 1); s.label(any ? "NURBS" : "none");
}
