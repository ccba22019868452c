// Edges and wires: histories of additions against a model of the chain of vertices.
#include "gen.h"
#include <gbs/curves>
#include <gbs/bscbuild.h>
#include <gbs/bscinterp.h>
#include <gbs/extrema.h>
#include <gbs/bscanalysis.h>
#include <topology/wire.h>
using namespace gen;
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/;
const char *pbt_property = "P22";
const char *pbt_rule = "random histories of edges (by points, by shared vertices, by curves, closed ones) offered to a wire in any order, with gaps below and above the tolerance; vertices moved along edges; oracle: the chain of end points; non-trivial: at least three edges offered, one of them refused or put in front, or a vertex inside a curve";
template <size_t N> using P = std::array<double, N>; template <size_t N> using Vx = std::shared_ptr<gbs::Vertex<double, N>>; template <size_t N> using Ed = std::shared_ptr<gbs::Edge<double, N>>; template <size_t N> using Cv = std::shared_ptr<gbs::Curve<double, N>>;
template <size_t N> static Cv<N> arc(Src &s, const P<N> &a, const P<N> &b) { double d = dist(a, b); if (s.chance(1, 3)) return std::make_shared<gbs::BSCurve<double, N>>(gbs::build_segment(a, b)); std::vector<P<N>> p{a}; int n = s.in(1, 2); for (int i = 1; i <= n; i++) { P<N> m = a + (b - a) * (double(i) / (n + 1)); for (auto &x : m) x += .15 * d * s.sym(1); p.push_back(m); } p.push_back(b); double k0 = s.chance(1, 2) ? 0 : s.sym(3), k1 = k0 + s.real(.5, 4); std::vector<double> k; size_t g = p.size() - 1; k.assign(g + 1, k0); k.insert(k.end(), g + 1, k1); if (s.chance(1, 3)) { std::vector<P<N + 1>> h; for (auto &x : p) { double w = .7 + .6 * s.unit(); if (&x == &p.front() || &x == &p.back()) w = 1; P<N + 1> y; for (size_t c = 0; c < N; c++) y[c] = w * x[c]; y[N] = w; h.push_back(y); } return std::make_shared<gbs::BSCurveRational<double, N>>(h, k, g); } return std::make_shared<gbs::BSCurve<double, N>>(p, k, g); }
template <size_t N> static void edge_ok(const Ed<N> &e, double tol) { auto [u1, u2] = e->bounds(); auto [c1, c2] = e->curve()->bounds(); REQUIRE_MSG(u1 >= c1 && u2 <= c2 && u1 < u2, "edge on " << u1 << "," << u2 << " of a curve on " << c1 << "," << c2); REQUIRE_MSG(dist(e->curve()->value(u1), e->vertex1()->point()) <= tol && dist(e->curve()->value(u2), e->vertex2()->point()) <= tol, "vertex off the end of its edge"); }
template <size_t N> static void wires(Src &s)
{
    // corners of a polygon, possibly met with small gaps
    int n = s.in(2, 6); double R = s.one_of({1., 5., 20.}); std::vector<P<N>> c(n); for (int i = 0; i < n; i++) { double a = 2 * M_PI * (i + .3 * s.sym(1)) / n; c[i][0] = R * std::cos(a); c[i][1] = R * std::sin(a); if constexpr (N == 3) c[i][2] = s.sym(R); } double tol = s.chance(1, 2) ? 1e-5 : s.one_of({1e-7, 1e-4, 1e-3}); std::vector<Vx<N>> vx(n); for (int i = 0; i < n; i++) vx[i] = std::make_shared<gbs::Vertex<double, N>>(c[i]);
    struct Rec { Ed<N> e; P<N> a, b; }; std::vector<Rec> chain; auto at = [&](int i, bool gap, bool big) { P<N> p = c[i]; if (gap) { P<N> d; for (auto &x : d) x = s.sym(1); double m = mag(d); if (m > .1) p = p + d * ((big ? 5 : .1) * std::min(tol, 1e-5) / m); if (big && m > .1) p = c[i] + d * (5 * std::max(tol, 1e-5) / m); } return p; };
    auto offer = [&](int i, int j, std::ostringstream &o) { bool gap = s.chance(1, 3), big = gap && s.chance(1, 4); int kind = s.draw(3); Rec r; r.a = at(i, gap, big); r.b = at(j, gap, false); o << " " << i << "-" << j << (kind == 0 ? "p" : kind == 1 ? "v" : "c") << (big ? "!" : gap ? "~" : ""); if (kind == 0) r.e = std::make_shared<gbs::Edge<double, N>>(r.a, r.b); else if (kind == 1) { if (s.chance(3, 4)) { r.a = c[i]; r.b = c[j]; r.e = std::make_shared<gbs::Edge<double, N>>(vx[i], vx[j]); } else { r.b = c[j]; r.e = std::make_shared<gbs::Edge<double, N>>(std::make_shared<gbs::Vertex<double, N>>(r.a), vx[j]); } } else { Cv<N> cv = arc<N>(s, r.a, r.b); r.e = std::make_shared<gbs::Edge<double, N>>(cv); } r.e->setApproximationTolerance(tol); return r; };
    std::ostringstream o; o << n << " corners tolerance " << tol << ":"; auto pick = [&] { int i = s.draw(n), j = s.chance(2, 3) ? (i + 1) % n : s.draw(n); if (i == j) j = (i + 1) % n; return std::pair{i, j}; }; auto [i0, j0] = pick(); auto first = offer(i0, j0, o); s << o.str(); bool copy = s.chance(1, 4); gbs::Wire<double, N> w = copy ? gbs::Wire<double, N>(*first.e) : gbs::Wire<double, N>(first.e); w.setApproximationTolerance(tol); REQUIRE(w.approximationTolerance() == tol); if (copy) first.e = w.front(); chain.push_back(first); int front = i0, back = j0; (void)front; (void)back; int refused = 0, fronted = 0, steps = s.in(2, 10); bool closed = false;
    // the ends of the chain are vertices: the ones of the edges first put there
    P<N> A = first.a, B = first.b; std::ostringstream o2;
    for (int k = 0; k < steps; k++)
    {
        std::pair<int, int> ij = pick(); if (s.chance(1, 2)) { for (int i = 0; i < n; i++) { if (dist(c[i], B) < 1e-2) ij = {i, s.chance(1, 2) ? (i + 1) % n : ij.second}; if (s.chance(1, 2) && dist(c[i], A) < 1e-2) ij = {(i + n - 1) % n, i}; } if (ij.first == ij.second) ij.second = (ij.first + 1) % n; } std::ostringstream oo; auto r = offer(ij.first, ij.second, oo); s << oo.str(); auto v1 = r.e->vertex1(), v2 = r.e->vertex2(); auto ub = r.e->bounds(); bool atB = dist(r.a, B) < tol || v1 == w.vertex2(), atA = dist(r.b, A) < tol || v2 == w.vertex1(); bool expect = !closed && (atA || atB); bool copy2 = s.chance(1, 4); bool got = copy2 ? w.addEdge(*r.e) : w.addEdge(r.e); REQUIRE_MSG(got == expect, "edge " << (got ? "accepted" : "refused") << (closed ? " by a closed wire" : "")); size_t sz = std::distance(w.begin(), w.end());
        if (!got) { REQUIRE_MSG(sz == chain.size() && r.e->vertex1() == v1 && r.e->vertex2() == v2 && r.e->bounds() == ub, "refused edge or its wire changed"); refused++; auto it = w.begin(); for (auto &q : chain) REQUIRE(*it++ == q.e); continue; }
        REQUIRE_MSG(sz == chain.size() + 1, "number of edges"); bool infront = w.back() == chain.back().e; if (infront) REQUIRE(w.back() == chain.back().e && atA); else REQUIRE_MSG(w.front() == chain.front().e && atB, "edge put at the wrong end"); r.e = infront ? w.front() : w.back(); if (!copy2) REQUIRE(true); if (infront) { chain.insert(chain.begin(), r); A = r.e->vertex1()->point(); fronted++; } else { chain.push_back(r); B = r.e->vertex2()->point(); } closed = atA && atB; auto it = w.begin(); Vx<N> prev; for (auto &q : chain) { auto e = *it++; REQUIRE_MSG(e == q.e, "order of the edges"); if (prev) REQUIRE_MSG(prev == e->vertex1(), "consecutive edges do not share their vertex"); prev = e->vertex2(); edge_ok<N>(e, 1.5 * tol); REQUIRE_MSG(dist(e->vertex1()->point(), q.a) < 1.5 * tol && dist(e->vertex2()->point(), q.b) < 1.5 * tol, "edge moved"); } REQUIRE(w.vertex1() == chain.front().e->vertex1() && w.vertex2() == chain.back().e->vertex2()); REQUIRE_MSG(w.isClosed() == closed, "wire " << (closed ? "not closed" : "closed"));
    }
    if (!closed && s.chance(1, 2) && dist(A, B) > 1e-2) { s << " close"; w.close(); REQUIRE_MSG(w.isClosed(), "not closed"); size_t sz = std::distance(w.begin(), w.end()); REQUIRE(sz == chain.size() + 1); Vx<N> prev = w.vertex2(); for (auto &e : w) { REQUIRE_MSG(prev == e->vertex1(), "consecutive edges do not share their vertex"); prev = e->vertex2(); edge_ok<N>(e, 1.5 * tol); } } else if (closed) { size_t sz = std::distance(w.begin(), w.end()); w.close(); REQUIRE((size_t(std::distance(w.begin(), w.end())) == sz)); } w.tessellate(); s.nontrivial(refused || fronted); s.label(closed ? "closed" : "open");
}
PBT_ARM(wires_2d, 600, 15000) { wires<2>(s); }
PBT_ARM(wires_3d, 400, 10000) { wires<3>(s); }
// one closed curve
PBT_ARM(closed_curves, 200, 5000)
{
    double r = s.real(.5, 5); P<2> o{s.sym(5), s.sym(5)}; Cv<2> c; int kind = s.draw(3); if (kind == 0) c = std::make_shared<gbs::BSCurveRational<double, 2>>(gbs::build_circle<double, 2>(r, o)); else if (kind == 1) c = std::make_shared<gbs::BSCurveRational<double, 2>>(gbs::build_ellipse<double, 2>(r, r * s.real(.3, 1), o)); else { int n = s.in(4, 8); std::vector<P<2>> p; for (int i = 0; i <= n; i++) { double a = 2 * M_PI * (i % n) / n, q = r * (1 + (i % n ? .2 * s.sym(1) : 0)); p.push_back({o[0] + q * std::cos(a), o[1] + q * std::sin(a)}); } std::vector<double> u; for (int i = 0; i <= n; i++) u.push_back(i); c = std::make_shared<gbs::BSCurve<double, 2>>(gbs::interpolate<double, 2>(p, u, 3)); }
    s << "closed curve " << kind << " radius " << r; auto [u1, u2] = c->bounds(); auto e = std::make_shared<gbs::Edge<double, 2>>(c); REQUIRE(e->curve() == c && (e->bounds() == std::pair{u1, u2})); auto copy = s.chance(1, 2) ? gbs::Wire<double, 2>(e) : gbs::Wire<double, 2>(*e); REQUIRE_MSG(copy.isClosed(), "wire of a closed curve is open"); auto b = copy.front()->bounds(); REQUIRE_MSG(std::abs(b.first - u1) < 1e-6 * (u2 - u1) && std::abs(b.second - u2) < 1e-6 * (u2 - u1), "closed edge on " << b.first << "," << b.second << " instead of " << u1 << "," << u2); gbs::Edge<double, 2> x(P<2>{0, 0}, P<2>{1, 1}); REQUIRE_MSG(!copy.addEdge(x), "edge added to a closed wire"); copy.tessellate(); s.nontrivial(); s.label(kind == 2 ? "interpolated" : "conic");
}
// vertices put on an edge, or off it
template <size_t N> static void trims(Src &s)
{
    P<N> a, b; for (auto &x : a) x = s.sym(5); for (auto &x : b) x = s.sym(5); DISCARD_IF(dist(a, b) < .5); auto c = arc<N>(s, a, b); double tol = s.one_of({1e-5, 1e-3, 1e-6}); auto e = s.chance(1, 2) ? gbs::Edge<double, N>(c) : gbs::Edge<double, N>(c, gbs::Edge<double, N>(a, b)); REQUIRE(e.approximationTolerance() == 1e-5 && e.precisionTolerance() == 1e-6); e.setApproximationTolerance(tol); e.setPrecisionTolerance(tol / 3); REQUIRE(e.approximationTolerance() == tol && e.precisionTolerance() == tol / 3); auto [k1, k2] = c->bounds(); double w1 = k1, w2 = k2; auto v1 = e.vertex1(), v2 = e.vertex2(); REQUIRE(dist(v1->point(), a) < 1e-9 && dist(v2->point(), b) < 1e-9); s << "curve from " << show(a) << " to " << show(b) << " tolerance " << tol; int in = 0;
    for (int k = 0, n = s.in(1, 4); k < n; k++) { bool f = s.chance(1, 2); double t = f ? .05 + .4 * s.unit() : .55 + .4 * s.unit(); double u = k1 + (k2 - k1) * t; P<N> p = c->value(u), d; for (auto &x : d) x = s.sym(1); P<N> tg = c->value(u, 1); double q = 0; for (size_t i = 0; i < N; i++) q += d[i] * tg[i]; for (size_t i = 0; i < N; i++) d[i] -= q * tg[i] / (mag(tg) * mag(tg)); if (mag(d) < .05) continue; double off = tol * s.one_of({0., .5, .9, 1.2, 10.}); p = p + d * (off / mag(d)); auto v = std::make_shared<gbs::Vertex<double, N>>(p); s << (f ? " first" : " second") << " vertex at " << t << " off by " << off; bool r = f ? e.setVertex1(v) : e.setVertex2(v); REQUIRE_MSG(r == (off < tol), "vertex " << (r ? "accepted" : "refused")); if (r) { (f ? v1 : v2) = v; (f ? w1 : w2) = u; in++; } REQUIRE(e.vertex1() == v1 && e.vertex2() == v2); auto [x1, x2] = e.bounds(); double eps = 1e-5 * (k2 - k1) + 2 * off / std::max(mag(tg), 1e-3); REQUIRE_MSG(std::abs(x1 - w1) < eps && std::abs(x2 - w2) < eps, "bounds " << x1 << "," << x2 << " instead of " << w1 << "," << w2); if (s.chance(1, 3)) { P<N> z = p; z[0] += 1; v->setPoint(z); REQUIRE(v->point() == z); v->setPoint(p); } } e.tessellate(); s.nontrivial(in); s.label(in ? "trimmed" : "refused");
}
PBT_ARM(trims_2d, 300, 8000) { trims<2>(s); }
PBT_ARM(trims_3d, 200, 5000) { trims<3>(s); }
