// Triangulations: insertion histories, point sets, constrained polygons, refinement, surfaces.
#include "gen.h"
#include "shapes.h"
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <map>
#include <set>
using namespace gen;
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/;
const char *pbt_property = "P20";
const char *pbt_rule = "random point sets (scattered, grid, cocircular, aligned, elongated, with duplicates), insertion histories, polygons with holes, refinements and meshes of surface domains; oracle: exact orientation of faces, conformity of links, the empty circle condition in extended precision, areas of hull and polygons, the given points and edges; non-trivial: at least 6 points, or degenerate positions, or a hole";
using P2 = std::array<double, 2>; using V = std::shared_ptr<gbs::HalfEdgeVertex<double, 2>>; using E = std::shared_ptr<gbs::HalfEdge<double, 2>>; using F = std::shared_ptr<gbs::HalfEdgeFace<double, 2>>; using FL = std::list<F>; using L = long double;
static L ori(const P2 &a, const P2 &b, const P2 &c) { return (L(a[0]) - c[0]) * (L(b[1]) - c[1]) - (L(a[1]) - c[1]) * (L(b[0]) - c[0]); }
// sign of d in the circle of abc, 0 when within rounding of it
static int circ(const P2 &a, const P2 &b, const P2 &c, const P2 &d, L tol = 1e-10L) { L ax = L(a[0]) - d[0], ay = L(a[1]) - d[1], bx = L(b[0]) - d[0], by = L(b[1]) - d[1], cx = L(c[0]) - d[0], cy = L(c[1]) - d[1]; L x = (ax * ax + ay * ay) * (bx * cy - cx * by), y = -(bx * bx + by * by) * (ax * cy - cx * ay), z = (cx * cx + cy * cy) * (ax * by - bx * ay), s = (ax * ax + ay * ay) * (std::abs(bx * cy) + std::abs(cx * by)) + (bx * bx + by * by) * (std::abs(ax * cy) + std::abs(cx * ay)) + (cx * cx + cy * cy) * (std::abs(ax * by) + std::abs(bx * ay)); L w = x + y + z; return std::abs(w) <= tol * s ? 0 : w > 0 ? 1 : -1; }
static L area(const FL &l) { L A = 0; for (auto &f : l) { auto e = f->edge; A += ori(e->vertex->coords, e->next->vertex->coords, e->previous->vertex->coords) / 2; } return A; }
// loops, links, orientation; returns the vertices
static std::set<V> mesh_ok(const FL &l, bool pinched = false)
{
    std::set<void *> live; std::map<std::pair<V, V>, E> de; std::set<V> vs; for (auto &f : l) live.insert(f.get()); REQUIRE_MSG(live.size() == l.size(), "face listed twice");
    for (auto &f : l) { auto e = f->edge; for (int k = 0; k < 3; k++, e = e->next) { REQUIRE_MSG(e->face == f && e->next->previous == e && e->previous->next == e, "loop of a face"); REQUIRE_MSG((de.emplace(std::pair{e->previous->vertex, e->vertex}, e).second), "two faces on the same side of an edge"); vs.insert(e->vertex); } REQUIRE_MSG(e == f->edge, "face is not a triangle"); REQUIRE_MSG(gbs::orient2d(e->previous->vertex->coords, e->vertex->coords, e->next->vertex->coords) > 0, "face folded or flat: " << show(e->previous->vertex->coords) << show(e->vertex->coords) << show(e->next->vertex->coords)); }
    for (auto &[k, e] : de) { auto o = de.find({k.second, k.first}); REQUIRE_MSG(bool(e->opposite) == (o != de.end()), "edge " << show(k.first->coords) << show(k.second->coords) << (o == de.end() ? " on the boundary has an opposite" : " shared but not linked")); if (e->opposite) REQUIRE_MSG(e->opposite == o->second && live.count(e->opposite->face.get()), "opposite of an edge"); }
    for (auto &v : vs) { REQUIRE_MSG(v->edge && v->edge->vertex == v && live.count(v->edge->face.get()), "edge of a vertex"); } (void)pinched; return vs;
}
static void delaunay_ok(const FL &l, const std::set<V> &vs, L tol = 1e-9L) { for (auto &f : l) { auto e = f->edge; auto &a = e->vertex->coords, &b = e->next->vertex->coords, &c = e->previous->vertex->coords; for (auto &v : vs) if (v != e->vertex && v != e->next->vertex && v != e->previous->vertex) REQUIRE_MSG(circ(a, b, c, v->coords, tol) <= 0, "point " << show(v->coords) << " is inside the circle of " << show(a) << show(b) << show(c)); } }
static L hull(std::vector<P2> s, std::vector<P2> *out = nullptr) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); int n = s.size(); if (n < 3) return 0; std::vector<P2> h(2 * n); int k = 0; for (int i = 0; i < n; i++) { while (k >= 2 && ori(h[k - 2], h[k - 1], s[i]) <= 0) k--; h[k++] = s[i]; } for (int i = n - 2, t = k + 1; i >= 0; i--) { while (k >= t && ori(h[k - 2], h[k - 1], s[i]) <= 0) k--; h[k++] = s[i]; } L A = 0; for (int i = 0; i < k - 1; i++) A += ori(h[i], h[i + 1], h[0]); if (out) out->assign(h.begin(), h.begin() + std::max(0, k - 1)); return A / 2; }
// sets of points of all kinds; exact: coordinates small multiples of a power of two
static std::vector<P2> cloud(Src &s, int nmax, bool &degen)
{
    int kind = s.draw(6), n = s.in(3, nmax); std::vector<P2> l; degen = kind >= 1; double ex = std::ldexp(1., s.in(-8, 8));
    for (int i = 0; i < n; i++) switch (kind)
        {
        case 0: l.push_back({s.sym(10), s.sym(10)}); break;
        case 1: l.push_back({double(s.in(-3, 3)), double(s.in(-3, 3))}); break;
        case 2: { double x = s.in(0, 4), y = 4 - s.in(0, 1); P2 c[8] = {{3, 4}, {-3, 4}, {3, -4}, {-3, -4}, {4, 3}, {-4, 3}, {4, -3}, {-4, -3}}; l.push_back(s.chance(3, 4) ? c[s.draw(8)] : P2{x, y}); break; }
        case 3: l.push_back({double(s.in(-8, 8)), s.chance(2, 3) ? 0. : double(s.in(-2, 2))}); break;
        case 4: l.push_back({s.sym(10), s.sym(10) * 1e-2}); break;
        default: l.push_back({s.in(-40, 40) / 4., s.in(-40, 40) / 4.});
        }
    if (s.chance(1, 3)) l.push_back(l[s.draw(l.size())]); for (auto &p : l) p = p * ex; double g = s.chance(1, 3) ? s.sym(100) : 0; if (kind != 0 && kind != 4) g = std::round(g); for (auto &p : l) p = p + P2{g * ex, -g * ex}; return l;
}
// one triangulation grown point by point
PBT_ARM(insertions, 500, 15000)
{
    bool dg; int big = s.in(8, 24); auto l = cloud(s, big, dg); double x0 = 1e30, x1 = -1e30, y0 = 1e30, y1 = -1e30; for (auto &p : l) { x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); y0 = std::min(y0, p[1]); y1 = std::max(y1, p[1]); } double w = std::max(x1 - x0, y1 - y0); DISCARD_IF(!(w > 0)); bool tight = s.chance(1, 3); double m = tight ? 0. : s.chance(1, 2) ? w / 8 : 2 * w; if (tight && !(x1 > x0 && y1 > y0)) m = w / 4; x0 -= m; y0 -= m; x1 += m; y1 += m;
    auto a = gbs::make_shared_h_edge<double, 2>({x1, y0}), b = gbs::make_shared_h_edge<double, 2>({x0, y1}), c = gbs::make_shared_h_edge<double, 2>({x0, y0}); auto l1 = {a, b, c}; auto f1 = gbs::make_shared_h_face<double, 2>(l1); FL fl{f1, gbs::add_face(f1, b, P2{x1, y1})}; L A = area(fl); auto vs = mesh_ok(fl); s << "box " << x0 << "," << y0 << "," << x1 << "," << y1 << ":";
    for (int i = 0; i < int(l.size()); i++)
    {
        P2 p = l[i]; int how = s.draw(12); if (how == 0) { auto f = fl.front(); auto e = f->edge; for (int k = s.draw(3); k--;) e = e->next; p = gbs::edge_midpoint(e); } else if (how == 1) p = P2{x1 + w * s.unit(), y0 + w * s.sym(2)}; s << " " << show(p); FL before = fl; bool dup = false; for (auto &v : vs) dup |= v->coords == p; int in = 0, onb = 0; for (auto &f : fl) { auto e = f->edge; bool ok = true; E on; for (int k = 0; k < 3; k++, e = e->next) { double o = gbs::orient2d(e->previous->vertex->coords, e->vertex->coords, p); ok &= o >= 0; if (o == 0) on = e; } if (ok) { in++; if (on && !on->opposite) onb++; } } bool expect = in && !dup && !onb;
        auto [v, del, cre] = gbs::boyerWatson<double>(fl, p); REQUIRE_MSG(bool(v) == expect, "point " << show(p) << (expect ? " was not inserted" : " was inserted")); if (!v) { REQUIRE_MSG(fl == before && del.empty() && cre.empty(), "mesh changed by a point which was refused"); continue; } REQUIRE(v->coords == p); vs.insert(v); auto now = mesh_ok(fl); REQUIRE_MSG(now == vs, "vertices lost: " << now.size() << " instead of " << vs.size()); REQUIRE_MSG(fl.size() == before.size() + 2 && cre.size() == del.size() + 2, "number of faces"); REQUIRE_MSG(std::abs(area(fl) - A) < 1e-12L * A, "area changed"); std::set<F> o(before.begin(), before.end()), d(del.begin(), del.end()), n(cre.begin(), cre.end()), all(fl.begin(), fl.end()); for (auto &f : d) REQUIRE_MSG(o.count(f) && !all.count(f), "faces deleted"); for (auto &f : n) { REQUIRE_MSG(!o.count(f) && all.count(f), "faces created"); bool has = false; for (auto &q : gbs::getFaceVertices(f)) has |= q == v; REQUIRE(has); } for (auto &f : o) REQUIRE(all.count(f) || d.count(f)); auto around = gbs::getFacesAttachedToVertex(v); REQUIRE_MSG(std::set<F>(around.begin(), around.end()) == n, "faces around the new vertex"); if (i + 1 == int(l.size()) || i % 4 == 3) delaunay_ok(fl, vs);
    }
    delaunay_ok(fl, vs); s.nontrivial(dg || l.size() >= 6); s.label(dg ? "degenerate positions" : "scattered");
}
static void cover(Src &s, const FL &fl, const std::vector<P2> &l)
{
    auto vs = mesh_ok(fl); std::set<P2> want(l.begin(), l.end()), got; for (auto &v : vs) REQUIRE_MSG(got.insert(v->coords).second, "two vertices at the same point"); REQUIRE_MSG(got == want, "vertices: " << got.size() << " instead of " << want.size()); L H = hull(l); REQUIRE_MSG(std::abs(area(fl) - H) <= 1e-9L * H, "area " << double(area(fl)) << " instead of that of the hull " << double(H)); delaunay_ok(fl, vs); (void)s;
}
PBT_ARM(point_sets, 600, 20000)
{
    bool dg; auto l = cloud(s, s.in(6, 30), dg); std::vector<P2> h; L H = hull(l, &h); double w = 0; for (auto &p : l) for (auto &q : l) w = std::max(w, dist(p, q)); DISCARD_IF(H <= 1e-6L * w * w); // aligned points have no triangulation
    for (size_t i = 0; i < h.size(); i++) for (auto &p : l) if (p != h[i] && p != h[(i + 1) % h.size()]) { auto &a = h[i], &b = h[(i + 1) % h.size()]; L o = ori(a, b, p); if (o == 0) continue; DISCARD_IF(o < 1e-7L * dist(a, b) * w); } // slivers along the hull
    s << showp(l, 40); auto fl = gbs::delaunay2DBoyerWatson<double>(l); cover(s, fl, l); auto l2 = l; for (size_t i = l2.size(); i > 1; i--) std::swap(l2[i - 1], l2[s.draw(i)]); auto f2 = gbs::delaunay2DBoyerWatson<double>(l2); cover(s, f2, l2); s.nontrivial(dg || l.size() > 6); s.label(dg ? "degenerate positions" : "scattered");
}
static bool cross(const P2 &a, const P2 &b, const P2 &c, const P2 &d) { auto sg = [](L x) { return (x > 0) - (x < 0); }; return sg(ori(a, b, c)) * sg(ori(a, b, d)) < 0 && sg(ori(c, d, a)) * sg(ori(c, d, b)) < 0; }
// simple ccw polygon, star-shaped about o with reflex corners
static std::vector<P2> star(Src &s, const P2 &o, double r0, double r1, int n) { std::vector<P2> p; double ph = s.unit(); for (int i = 0; i < n; i++) { double r = r0 + (r1 - r0) * (s.chance(1, 3) ? s.draw(2) : s.unit()), a = 2 * M_PI * (i + ph + 0.7 * s.unit()) / n; p.push_back({o[0] + r * std::cos(a), o[1] + r * std::sin(a)}); } return p; }
PBT_ARM(constrained, 700, 25000)
{
    int nh = s.weighted({3, 2, 1}); bool lattice = s.chance(1, 4); std::vector<P2> out; std::vector<std::vector<P2>> holes; L A = 0;
    if (lattice) // staircase polygon: many cocircular and aligned points
    {
        int n = s.in(2, 6); std::vector<int> hgt; for (int i = 0; i < n; i++) hgt.push_back(s.in(1, 5)); out.push_back({0, 0}); out.push_back({double(n), 0}); for (int i = n; i--;) { P2 a{double(i + 1), double(hgt[i])}, b{double(i), double(hgt[i])}; if (i == n - 1 || hgt[i] != hgt[i + 1]) out.push_back(a); out.push_back(b); } if (hgt[0] == 0) out.pop_back(); nh = 0;
    }
    else { out = star(s, {0, 0}, nh ? 5 : 1, 9, s.in(nh ? 8 : 4, 16)); for (int i = 0; i < nh; i++) { P2 o = nh == 1 ? P2{s.sym(.5), s.sym(.5)} : P2{i ? 1.7 : -1.7, s.sym(.4)}; holes.push_back(star(s, o, .4, nh == 1 ? 2.2 : 1.5, s.in(4, 9))); } double k = std::ldexp(1., s.in(-6, 6)); auto mv = [&](P2 &p) { p = p * k + P2{k, -2 * k}; }; for (auto &p : out) mv(p); for (auto &h : holes) for (auto &p : h) mv(p); }
    auto ring = [](const std::vector<P2> &r) { L a = 0; for (size_t i = 0; i < r.size(); i++) a += ori(r[i], r[(i + 1) % r.size()], r[0]); return a / 2; }; A = ring(out); for (auto &h : holes) A -= ring(h); std::vector<std::pair<P2, P2>> ed; for (size_t i = 0; i < out.size(); i++) ed.push_back({out[i], out[(i + 1) % out.size()]}); for (auto &h : holes) for (size_t i = 0; i < h.size(); i++) ed.push_back({h[(i + 1) % h.size()], h[i]}); double scale = std::sqrt(double(ring(out)));
    for (size_t i = 0; i < ed.size(); i++) for (size_t j = 0; j < ed.size(); j++) { DISCARD_IF(i != j && cross(ed[i].first, ed[i].second, ed[j].first, ed[j].second)); auto &p = ed[j].first; auto &a = ed[i].first, &b = ed[i].second; if (p != a && p != b) { auto d = b - a; double t = std::clamp(((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / (d[0] * d[0] + d[1] * d[1]), 0., 1.); DISCARD_IF(dist(p, a + d * t) < 1e-4 * scale); } }
    s << showp(out, 20); for (auto &h : holes) s << " hole " << showp(h, 12); auto fl = s.chance(1, 2) || nh ? gbs::delaunay2DConstrained<double>(out, holes) : gbs::delaunay2DConstrained<double>(out); auto vs = mesh_ok(fl); std::set<P2> want(out.begin(), out.end()), got; for (auto &h : holes) want.insert(h.begin(), h.end()); for (auto &v : vs) got.insert(v->coords); REQUIRE_MSG(got == want, "vertices: " << got.size() << " instead of " << want.size()); REQUIRE_MSG(std::abs(area(fl) - A) <= 1e-9L * A, "area " << double(area(fl)) << " instead of " << double(A));
    std::set<std::pair<P2, P2>> bd, w(ed.begin(), ed.end()); for (auto &e : gbs::getFacesBoundary(fl)) bd.insert({e->previous->vertex->coords, e->vertex->coords}); for (auto &e : w) REQUIRE_MSG(bd.count(e), "edge " << show(e.first) << show(e.second) << " of the polygon is not on the boundary"); REQUIRE_MSG(bd.size() == w.size(), "boundary has " << bd.size() << " edges instead of " << w.size()); REQUIRE_MSG(fl.size() == want.size() - 2 + 2 * nh, "number of faces"); s.nontrivial(nh || out.size() >= 6); s.label(nh ? "holes" : lattice ? "staircase" : "simple");
}
PBT_ARM(recovered_edges, 500, 15000)
{
    bool dg; auto l = cloud(s, s.in(6, 25), dg); double w = 0; for (auto &p : l) for (auto &q : l) w = std::max(w, dist(p, q)); DISCARD_IF(hull(l) <= 1e-4L * w * w); if (dg) for (auto &p : l) p = p * (16 / w); auto fl = gbs::delaunay2DBoyerWatson<double>(l); auto vs0 = mesh_ok(fl); L A = area(fl); std::vector<V> vs(vs0.begin(), vs0.end()); std::sort(vs.begin(), vs.end(), [](auto &a, auto &b) { return a->coords < b->coords; }); s << showp(l, 30); int n = s.in(1, 4), flips = 0;
    for (int i = 0; i < n; i++)
    {
        auto p = vs[s.draw(vs.size())], q = vs[s.draw(vs.size())]; if (p == q) { REQUIRE(!gbs::recoverEdge<double>(fl, p, q)); continue; } bool there = false, blocked = false; auto cp = p->coords, cq = q->coords; for (auto &f : fl) for (auto &e : gbs::getTriangleEdges(f)) there |= (e->vertex == q && e->previous->vertex == p) || (e->vertex == p && e->previous->vertex == q); for (auto &v : vs) if (v != p && v != q) { auto d = cq - cp; auto &c = v->coords; double t = ((c[0] - cp[0]) * d[0] + (c[1] - cp[1]) * d[1]) / (d[0] * d[0] + d[1] * d[1]); if (t > 0 && t < 1) blocked |= dist(c, cp + d * t) < 1e-4 * w; }
        if (blocked && !there) continue; s << " recover" << show(cp) << show(cq); auto e = gbs::recoverEdge<double>(fl, p, q); auto now = mesh_ok(fl); REQUIRE_MSG(now == vs0, "vertices changed"); REQUIRE_MSG(std::abs(area(fl) - A) <= 1e-10L * A, "area changed from " << double(A) << " to " << double(area(fl))); auto h = gbs::findHalfEdge(p, q), g = gbs::findHalfEdge(q, p); REQUIRE_MSG(h || g, "edge not recovered"); if (h) REQUIRE_MSG(e == h, "edge recovered but not returned"); if (!there) flips++;
    }
    s.nontrivial(flips); s.label(flips ? "flips" : "present");
}
PBT_ARM(bounds_of_meshes, 300, 9000)
{
    // a fine grid of points, cut along polygons finer than the grid
    int n = s.in(3, 7); std::vector<P2> l; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) l.push_back({12. * i / n + (i && i < n ? s.sym(.3) : 0), 12. * j / n + (j && j < n ? s.sym(.3) : 0)}); auto fl = gbs::delaunay2DBoyerWatson<double>(l); cover(s, fl, l); L A = area(fl); int m = s.in(12, 40); double R = 2 + 2.5 * s.unit(), k = .6 + .4 * s.unit(); P2 o{6 + s.sym(.5), 6 + s.sym(.5)}; std::vector<P2> c; for (int i = 0; i < m; i++) c.push_back({o[0] + R * std::cos(2 * M_PI * i / m), o[1] + k * R * std::sin(2 * M_PI * i / m)}); bool ext = s.chance(1, 2); s << "grid " << n << (ext ? " outer " : " inner ") << "ellipse " << m << " points, radii " << R << "," << k * R; auto b = gbs::make_HalfEdges<double>(c);
    FL gone = ext ? gbs::delaunay2DBoyerWatsonAddOuterBound<double, 2>(fl, c) : gbs::delaunay2DBoyerWatsonAddInnerBound<double, 2>(fl, c); auto vs = mesh_ok(fl, true); REQUIRE_MSG(std::abs(area(fl) + area(gone) - A) < 1e-9L * A, "faces lost"); for (auto &f : fl) { auto e = f->edge; P2 g = (e->vertex->coords + e->next->vertex->coords + e->previous->vertex->coords) / 3.; double q = std::hypot(g[0] - o[0], (g[1] - o[1]) / k) / R; if (ext) REQUIRE_MSG(q < 1 + 1e-9, "face left outside the boundary"); else REQUIRE_MSG(q > std::cos(M_PI / m) - 1e-9, "face left inside the hole"); } for (auto &f : gone) { auto e = f->edge; P2 g = (e->vertex->coords + e->next->vertex->coords + e->previous->vertex->coords) / 3.; double q = std::hypot(g[0] - o[0], (g[1] - o[1]) / k) / R; if (ext) REQUIRE_MSG(q > std::cos(M_PI / m) - 1e-9, "face taken from inside the boundary"); else REQUIRE_MSG(q < 1 + 1e-9, "face taken from outside the hole"); } s.nontrivial(); s.label(ext ? "outer" : "inner");
}
PBT_ARM(refined, 150, 4000)
{
    // the boundary is not refined: its edges are as short as asked for from the start
    double h = .4 + s.unit(); std::vector<P2> c; if (s.chance(1, 3)) { std::vector<P2> q{{0, 0}, {4, 0}, {4, 3}, {0, 3}}; for (size_t i = 0; i < q.size(); i++) { auto d = q[(i + 1) % q.size()] - q[i]; int n = 8 << s.draw(2); n = 4 / h > 8 ? 16 : n; for (int j = 0; j < n; j++) c.push_back(q[i] + d * (double(j) / n)); } } else { int n = std::ceil(20 / h * (1 + s.unit())); for (int i = 0; i < n; i++) { double a = 2 * M_PI * (i + .3 * s.unit()) / n; c.push_back({3 * std::cos(a), 2 * std::sin(a)}); } }
    auto fl = gbs::delaunay2DBoyerWatson<double>(c); auto all = mesh_ok(fl); delaunay_ok(fl, all); L A = area(fl); size_t mx = s.chance(1, 4) ? s.in(1, 20) : 400; s << showp(c, 16) << " edges below " << h << " at most " << mx << " points"; std::set<std::pair<P2, P2>> bd, b2; for (auto &e : gbs::getFacesBoundary(fl)) bd.insert({e->previous->vertex->coords, e->vertex->coords}); size_t nv = c.size();
    gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::MaxEdgeSize<double, 2>>(fl, h * h, mx, 1e-10); auto vs = mesh_ok(fl); REQUIRE_MSG(std::abs(area(fl) - A) < 1e-9L * A, "area changed"); for (auto &e : gbs::getFacesBoundary(fl)) b2.insert({e->previous->vertex->coords, e->vertex->coords}); REQUIRE_MSG(bd == b2, "boundary changed"); REQUIRE_MSG(vs.size() - nv <= mx, "more points than asked"); double worst = 0; for (auto &f : fl) for (auto &e : gbs::getTriangleEdges(f)) if (e->opposite) worst = std::max(worst, gbs::edge_sq_length(e)); if (vs.size() - nv < mx) REQUIRE_MSG(worst <= h * h * (1 + 1e-9), "edge of length " << std::sqrt(worst) << " left with " << vs.size() - nv << " points of " << mx); s.nontrivial(vs.size() > nv + 3); s.label(vs.size() - nv < mx ? "converged" : "limit");
}
template <typename Crit> static void surf_mesh(Src &s, double crit)
{
    auto g = gsrf<false>(s, 2, 3, false, 1); // smooth: at a crease the sampling by deviation gathers points without end
    auto sr = g.make(); auto [u1, u2, v1, v2] = sr.bounds(); size_t nu = s.in(2, 7), nv = s.in(2, 7), mx = s.in(1, 120); double dev = .01 + .2 * s.unit(); s << showp(g.P, 4) << g.U.p << g.V.p << " on " << u1 << "," << u2 << "x" << v1 << "," << v2 << " nu=" << nu << " nv=" << nv << " deviation=" << dev << " crit=" << crit << " max=" << mx; auto c = gbs::meshSurfaceBoundary(sr, nu, nv, dev); std::set<P2> cs(c.begin(), c.end()); REQUIRE_MSG(cs.count(P2{u1, v1}) && cs.count(P2{u2, v1}) && cs.count(P2{u1, v2}) && cs.count(P2{u2, v2}), "boundary without one of the corners"); size_t around = 0; for (size_t i = 0; i < c.size(); i++) { auto &p = c[i]; REQUIRE_MSG((p[0] == u1 || p[0] == u2 || p[1] == v1 || p[1] == v2) && p[0] >= u1 && p[0] <= u2 && p[1] >= v1 && p[1] <= v2, "point " << show(p) << " of the boundary is not on it"); auto &q = c[(i + 1) % c.size()]; around += p != q; REQUIRE_MSG(p[0] == q[0] || p[1] == q[1], "boundary leaves the sides"); } REQUIRE(around >= 4);
    // every side bends less than allowed between its own points
    for (int k = 0; k < 4; k++) { bool alongu = k < 2; double at = k == 0 ? v1 : k == 1 ? v2 : k == 2 ? u1 : u2; std::set<double> t; for (auto &p : c) if (p[alongu] == at) t.insert(p[!alongu]); REQUIRE_MSG(t.size() >= (alongu ? nu : nv), "side " << k << " has " << t.size() << " points"); if (t.size() >= gbs::approx_max_sample_points) { s.label("side at the limit"); continue; } auto val = [&](double x) { return alongu ? sr.value(x, at) : sr.value(at, x); };
        double last = *t.begin(); for (auto x : t) { if (x > last + 1e-9 * (1 + std::abs(x))) { auto a = val(last), m = val((last + x) / 2), b = val(x); long double X = 0, Y = 0, Z = 0; for (int d = 0; d < 3; d++) { L e = L(m[d]) - a[d], f = L(b[d]) - a[d]; X += e * e; Y += f * f; Z += e * f; } if (X * Y > 0) REQUIRE_MSG(std::sqrt(double(std::max<L>(0, 1 - Z * Z / (X * Y)))) <= dev + 1e-6, "side " << k << " bends too much on " << last << "," << x); } last = x; } }
    auto b = gbs::delaunay2DBoyerWatsonSurfaceBase<double, 3>(sr, nu, nv, dev); auto vb = mesh_ok(b); L A = (L(u2) - u1) * (L(v2) - v1); REQUIRE_MSG(std::abs(area(b) - A) < 1e-9L * A, "base mesh covers " << double(area(b)) << " of " << double(A)); std::set<P2> got; for (auto &v : vb) got.insert(v->coords); REQUIRE_MSG(got == cs, "vertices of the base mesh"); auto close = [&](const std::set<V> &l) { bool t = false; for (auto &x : l) for (auto &y : l) t |= x != y && dist(x->coords, y->coords) < 1e-4 * std::min(u2 - u1, v2 - v1); return t; }; DISCARD_IF(close(vb)); delaunay_ok(b, vb);
    auto f = gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, Crit>(sr, crit, mx, nu, nv, dev); auto vs = mesh_ok(f); REQUIRE_MSG(std::abs(area(f) - A) < 1e-9L * A, "mesh covers " << double(area(f)) << " of " << double(A)); if (!close(vs)) delaunay_ok(f, vs); for (auto &v : vs) got.erase(v->coords); REQUIRE_MSG(got.empty(), "points of the boundary were lost"); REQUIRE_MSG(vs.size() >= cs.size() && vs.size() - cs.size() <= mx, "more points than asked"); Crit d{sr}; double worst = 0; for (auto &h : f) worst = std::max(worst, double(d(h).first)); if (vs.size() - cs.size() < mx && !close(vs)) REQUIRE_MSG(worst <= crit, "criterion " << worst << " left above " << crit << " with " << vs.size() - cs.size() << " points of " << mx); s.nontrivial(vs.size() > cs.size()); s.label(vs.size() - cs.size() < mx ? "converged" : "limit");
}
PBT_ARM(surface_edge_length, 80, 2500) { surf_mesh<gbs::MaxEdgeSizeSurface<double, 3>>(s, 1 + 20 * s.unit()); }
PBT_ARM(surface_distance, 80, 2500) { surf_mesh<gbs::DistanceMeshSurface2<double, 3>>(s, .002 + .05 * s.unit()); }
PBT_ARM(surface_normals, 80, 2500) { surf_mesh<gbs::DeviationMeshSurface<double, 3>>(s, .05 + .4 * s.unit()); }
PBT_ARM(loops, 400, 9000)
{
    // orientation of loops of edges and of the faces filling them, at all sizes and places
    int n = s.in(3, 12); double k = std::pow(10., s.in(-6, 3)); P2 o{s.sym(100), s.sym(100)}; auto p = star(s, {0, 0}, .3, 1, n); L a = 0; for (auto &x : p) x = x * k + o; for (size_t i = 0; i < p.size(); i++) a += ori(p[i], p[(i + 1) % n], p[0]); DISCARD_IF(a < 1e-3L * k * k); s << showp(p, 12); auto h = gbs::make_HalfEdges<double>(p); std::list<E> hl(h.begin(), h.end()); bool z = gbs::are_edges_2d_ccw<double>(hl); REQUIRE_MSG(z, "counter clockwise loop not recognised"); auto q = p; std::reverse(q.begin(), q.end()); auto g = gbs::make_HalfEdges<double>(q); std::list<E> gl(g.begin(), g.end()); REQUIRE_MSG(!gbs::are_edges_2d_ccw<double>(gl), "clockwise loop taken for the other");
    s.nontrivial(n >= 5 || k < 1e-2); s.label(k < 1e-2 ? "small" : "large");
}
// what drives a refinement, on every face of a mesh of the domain of a surface: the measure and the place of the next point
PBT_ARM(criteria, 250, 7000)
{
    auto g = gsrf<false>(s, 1, 3, false, 2); auto sr = g.make(); auto [u1, u2, v1, v2] = sr.bounds(); double k = std::ldexp(1., s.in(-6, 6)); { auto P = g.P; for (auto &p : P) for (auto &x : p) x *= k; g.P = P; sr = g.make(); } std::vector<P2> c{{u1, v1}, {u2, v1}, {u2, v2}, {u1, v2}}; int n = s.in(0, 8); for (int i = 0; i < n; i++) c.push_back({u1 + (u2 - u1) * s.real(.05, .95), v1 + (v2 - v1) * s.real(.05, .95)}); s << showp(c, 12) << " scale " << k; auto fl = gbs::delaunay2DBoyerWatson<double>(c); mesh_ok(fl); REQUIRE(!fl.empty()); using Q = std::array<double, 3>; auto S = [&](const P2 &p, size_t a = 0, size_t b = 0) { return g.val(p[0], p[1], a, b); }; double sc = g.scale();
    auto is = [&](const auto &r, double want, const P2 &at, double tol, const char *w) { REQUIRE_MSG(std::abs(r.first - want) <= tol, w << ": " << r.first << " instead of " << want); REQUIRE_MSG(dist(r.second, at) < 1e-9, w << ": at " << show(r.second) << " instead of " << show(at)); }; auto area3 = [](const Q &a, const Q &b, const Q &c) { Q x, y; for (int i = 0; i < 3; i++) x[i] = b[i] - a[i], y[i] = c[i] - a[i]; return Q{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; }; auto nrm = [](const Q &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); };
    // the largest of a list, unless two are too close to tell which comes first
    auto worst = [&](std::vector<std::pair<double, P2>> l, double tol, bool &sure) { auto b = *std::max_element(l.begin(), l.end(), [](auto &x, auto &y) { return x.first < y.first; }); sure = true; for (auto &x : l) if (dist(x.second, b.second) > 1e-12 && b.first - x.first <= 4 * tol) sure = false; return b; };
    for (auto &f : fl)
    {
        auto te = gbs::getTriangleEdges(f); std::vector<E> ed(te.begin(), te.end()); std::vector<P2> uv; std::vector<Q> q; for (auto &e : ed) { uv.push_back(e->vertex->coords); q.push_back(S(uv.back())); } P2 G{}; Q G3{}; for (int i = 0; i < 3; i++) { G = G + uv[i] / 3.; G3 = G3 + q[i] / 3.; } bool sure; std::vector<std::pair<double, P2>> a, b, c2, d; bool inner = false; double longest = 0, shortest = 1e300; std::pair<double, P2> in{-1, {}};
        for (auto &e : ed) { auto &p0 = e->previous->vertex->coords, &p1 = e->vertex->coords; P2 m = (p0 + p1) / 2.; auto x = S(p0), y = S(p1), z = S(m); double l = dist(x, y); a.push_back({e->opposite ? l * l : 0, e->opposite ? m : P2{}}); double l2 = (p1[0] - p0[0]) * (p1[0] - p0[0]) + (p1[1] - p0[1]) * (p1[1] - p0[1]); b.push_back({e->opposite ? l2 : 0, e->opposite ? m : P2{}}); c2.push_back({e->opposite && l > 0 ? (dist(x, z) + dist(y, z) - l) / l : 0, e->opposite ? m : P2{}}); d.push_back({dist((x + y) / 2., z), m}); longest = std::max(longest, l2); shortest = std::min(shortest, l2); if (e->opposite) { inner = true; if (l2 > in.first) in = {l2, m}; } }
        d.push_back({dist(G3, S(G)), G}); if (inner) {
        auto w = worst(a, 1e-10 * sc * sc, sure); auto r = gbs::MaxEdgeSizeSurface<double, 3>{sr}(f); is(r, w.first, sure ? w.second : r.second, 1e-10 * sc * sc, "longest edge on the surface");
        w = worst(b, 1e-12, sure); auto r2 = gbs::MaxEdgeSize<double, 2>{}(f); is(r2, w.first, sure ? w.second : r2.second, 1e-12, "longest edge");
        double lmin = 1e300; for (auto &e : ed) lmin = std::min(lmin, dist(S(e->previous->vertex->coords), S(e->vertex->coords))); if (lmin > 1e-3 * sc) { w = worst(c2, 1e-9, sure); auto r3 = gbs::DistanceMeshSurface2<double, 3>{sr}(f); is(r3, w.first, sure ? w.second : r3.second, 1e-9, "excess of length of the edges"); } }
        auto w = worst(d, 1e-10 * sc, sure); auto r = gbs::DistanceMeshSurface<double, 3>{sr}(f); is(r, w.first, sure ? w.second : r.second, 1e-10 * sc, "distance to the surface");
        auto nt = area3(q[0], q[1], q[2]); auto a0 = S(G, 1, 0), b0 = S(G, 0, 1); Q ns = area3(Q{}, a0, b0); bool crease = false; for (auto b : g.U.brk) crease |= std::abs(b - G[0]) < 1e-9; for (auto b : g.V.brk) crease |= std::abs(b - G[1]) < 1e-9; if (!crease && nrm(nt) > 1e-6 * sc * sc && nrm(ns) > 1e-6 * sc * sc) { double want = nrm(nt / nrm(nt) - ns / nrm(ns)); is(gbs::DeviationMeshSurface<double, 3>{sr}(f), want, G, 1e-6, "deviation of the normals"); double x = gbs::surface_triangle_deviation<double, 3>(sr, uv[0], uv[1], uv[2]); REQUIRE_MSG(std::abs(x - want) < 1e-6, "deviation of a triangle " << x << " instead of " << want); }
        double lim = s.chance(1, 3) ? std::sqrt(longest) * s.real(1.01, 2) : std::sqrt(longest) * s.real(.1, .99), ratio = std::sqrt(longest / shortest); bool small = std::sqrt(longest) < lim; auto t = gbs::TriangleShape<double, 2>(lim)(f); REQUIRE_MSG(small ? t.first == std::numeric_limits<double>::lowest() : std::abs(t.first - ratio) < 1e-9 * ratio, "shape of a triangle " << t.first << " instead of " << ratio); REQUIRE(dist(t.second, G) < 1e-12); auto t2 = gbs::TriangleShapeEdgeSplit<double, 2>(lim)(f); REQUIRE_MSG(small ? t2.first == std::numeric_limits<double>::lowest() : std::abs(t2.first - ratio) < 1e-9 * ratio, "shape of a triangle to split"); if (inner) REQUIRE_MSG([&] { for (auto &e : ed) if (e->opposite && dist(gbs::edge_midpoint(e), t2.second) < 1e-12) return gbs::edge_sq_length(e) >= in.first * (1 - 1e-12); return false; }(), "edge to split is not the longest inside");
        auto inb = gbs::getFacesBoundary(fl); REQUIRE_MSG(gbs::is_centroid_inside_boundary(f, inb), "centre of a face outside the boundary of its mesh");
    }
    { std::vector<P2> o{{u1 - 2, v1 - 2}, {u2 + 2, v1 - 2}, {(u1 + u2) / 2, v2 + 4}}; auto big = gbs::make_HalfEdges<double>(o); auto tri = fl.front(); REQUIRE(gbs::is_centroid_inside_boundary(tri, big)); for (auto &p : o) p[0] += 10 + (u2 - u1); auto away = gbs::make_HalfEdges<double>(o); REQUIRE(!gbs::is_centroid_inside_boundary(tri, away)); } s.nontrivial(n > 0);
}
// the triangulation by enumeration: in general position exactly the triangles of empty circle, once each
PBT_ARM(enumeration, 120, 3000)
{
    int n = s.in(3, 8); std::vector<P2> c; for (int i = 0; i < n; i++) c.push_back({s.sym(4), s.sym(4)}); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) { DISCARD_IF(std::abs(ori(c[i], c[j], c[k])) < 1e-3); for (int l = 0; l < n; l++) if (l != i && l != j && l != k) DISCARD_IF(circ(c[i], c[j], c[k], c[l], 1e-5L) == 0); }
    s << showp(c, 8); auto vc = gbs::make_shared_h_vertices<double, 2>(c); auto fl = gbs::base_delaunay2d_mesh<double>(vc); std::set<std::set<V>> got, want; for (auto &f : fl) { auto e = f->edge; REQUIRE_MSG(ori(e->vertex->coords, e->next->vertex->coords, e->previous->vertex->coords) > 0, "face turned over"); REQUIRE_MSG(got.insert({e->vertex, e->next->vertex, e->previous->vertex}).second, "face listed twice"); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) { bool empty = true; auto a = c[i], b = c[j], d = c[k]; if (ori(a, b, d) < 0) std::swap(b, d); for (int l = 0; l < n; l++) if (l != i && l != j && l != k && circ(a, b, d, c[l], 1e-5L) > 0) empty = false; if (empty) want.insert({vc[i], vc[j], vc[k]}); } REQUIRE_MSG(got == want, got.size() << " faces instead of " << want.size()); s.nontrivial(n > 4);
}
