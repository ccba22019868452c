// Half-edge meshes under random edit histories, against a model made of plain vertex triples.
#include "gen.h"
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <topology/halfEdgeMesh.h>
#include <map>
#include <set>
using namespace gen;
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/;
const char *pbt_property = "P19";
const char *pbt_rule = "random histories of mesh edits (add_face, add_vertex in a face or in a patch, flip, splitHalfEdge, remove_faces, eraseFace, take external/internal faces, smoothing); oracle: a list of vertex triples edited alongside, every link and every getter recomputed from it by brute force after each step; non-trivial: at least 3 edits of 2 kinds on a mesh of 4 faces or more";
using Tri = std::array<int, 3>; using DE = std::pair<int, int>;
static Tri canon(Tri t) { int k = std::min_element(t.begin(), t.end()) - t.begin(); return {t[k], t[(k + 1) % 3], t[(k + 2) % 3]}; }
template <size_t dim> struct Mesh
{
    using V = std::shared_ptr<gbs::HalfEdgeVertex<double, dim>>; using E = std::shared_ptr<gbs::HalfEdge<double, dim>>; using F = std::shared_ptr<gbs::HalfEdgeFace<double, dim>>; using P = std::array<double, dim>;
    std::list<F> faces; std::set<Tri> model; std::vector<V> vtx; std::map<void *, int> id; std::vector<P> xy;
    int add(const V &v, const P &p) { id[v.get()] = vtx.size(); vtx.push_back(v); xy.push_back(p); return vtx.size() - 1; }
    int of(const V &v) const { auto i = id.find(v.get()); REQUIRE_MSG(i != id.end(), "a face refers to an unknown vertex"); return i->second; }
    Tri tri(const F &f) const { return canon({of(f->edge->vertex), of(f->edge->next->vertex), of(f->edge->next->next->vertex)}); }
    F face(Tri t) const { for (auto &f : faces) if (tri(f) == t) return f; REQUIRE_MSG(false, "face not found"); return {}; }
    E edge(DE d) const { for (auto &f : faces) { auto e = f->edge; for (int k = 0; k < 3; k++, e = e->next) if (of(e->previous->vertex) == d.first && of(e->vertex) == d.second) return e; } return {}; }
};
using MTri = std::set<Tri>;
static std::map<DE, Tri> dedges(const MTri &m) { std::map<DE, Tri> r; for (auto &t : m) for (int k = 0; k < 3; k++) { REQUIRE_MSG((!r.count({t[k], t[(k + 1) % 3]})), "two faces on the same side of an edge"); r[{t[k], t[(k + 1) % 3]}] = t; } return r; }
// would every vertex still have a single fan
static bool manifold(const MTri &m)
{
    std::set<DE> d; for (auto &t : m) for (int k = 0; k < 3; k++) if (!d.insert({t[k], t[(k + 1) % 3]}).second) return false;
    std::map<int, std::vector<Tri>> inc; for (auto &t : m) for (int v : t) inc[v].push_back(t);
    for (auto &[v, l] : inc) { int starts = 0; std::map<int, int> nx; for (auto &t : l) { int k = std::find(t.begin(), t.end(), v) - t.begin(); nx[t[(k + 1) % 3]] = t[(k + 2) % 3]; } std::set<int> seen; for (auto &[a, b] : nx) { bool pred = false; for (auto &[c, e] : nx) if (e == a) pred = true; if (!pred) starts++; } if (starts > 1) return false; int s = nx.begin()->first; for (auto &[a, b] : nx) { bool pred = false; for (auto &[c, e] : nx) if (e == a) pred = true; if (!pred) s = a; } size_t n = 0; for (int c = s; nx.count(c) && n <= nx.size(); c = nx[c]) { n++; if (nx[c] == s) break; } if (n != nx.size()) return false; }
    return true;
}
template <size_t dim> static double orient(const std::array<double, dim> &a, const std::array<double, dim> &b, const std::array<double, dim> &c) { return (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0]); }
template <size_t dim> static void check(Src &s, Mesh<dim> &m, bool full)
{
    // structure
    MTri got; std::set<void *> live; for (auto &f : m.faces) live.insert(f.get()); REQUIRE_MSG(live.size() == m.faces.size(), "a face listed twice");
    for (auto &f : m.faces)
    {
        REQUIRE_MSG(f && f->edge, "face without edge"); auto e = f->edge; for (int k = 0; k < 3; k++) { REQUIRE_MSG(e->face == f, "an edge of the loop of a face belongs to another face"); REQUIRE_MSG(e->next && e->previous && e->next->previous == e && e->previous->next == e, "next and previous disagree"); e = e->next; } REQUIRE_MSG(e == f->edge, "the loop of a face has not 3 edges"); auto t = m.tri(f); REQUIRE_MSG(got.insert(t).second, "two faces on the same vertices");
    }
    REQUIRE_MSG(got == m.model, "faces are not those expected: " << got.size() << " instead of " << m.model.size() << [&] { std::string r; for (auto &t : got) if (!m.model.count(t)) r += " unexpected(" + std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + ")"; for (auto &t : m.model) if (!got.count(t)) r += " missing(" + std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + ")"; return r; }());
    auto de = dedges(m.model); std::map<int, std::set<Tri>> inc; std::map<int, std::set<int>> nb; for (auto &t : m.model) for (int k = 0; k < 3; k++) { inc[t[k]].insert(t); nb[t[k]].insert(t[(k + 1) % 3]); nb[t[k]].insert(t[(k + 2) % 3]); }
    for (auto &f : m.faces) { auto e = f->edge; for (int k = 0; k < 3; k++, e = e->next) { DE d{m.of(e->previous->vertex), m.of(e->vertex)}, o{d.second, d.first}; bool shared = de.count(o); REQUIRE_MSG(bool(e->opposite) == shared, "edge " << d.first << "-" << d.second << (shared ? " is shared by two faces but not linked" : " is on the boundary but has an opposite")); if (shared) { REQUIRE_MSG(e->opposite->opposite == e, "opposite is not symmetric at edge " << d.first << "-" << d.second); REQUIRE_MSG(live.count(e->opposite->face.get()) && m.tri(e->opposite->face) == de[o], "opposite of " << d.first << "-" << d.second << " is in a wrong face"); REQUIRE_MSG(m.of(e->opposite->vertex) == o.second && m.of(e->opposite->previous->vertex) == o.first, "opposite of an edge has other ends"); } } }
    for (auto &[v, l] : inc) { auto &p = m.vtx[v]; REQUIRE_MSG(p->edge && p->edge->vertex == p, "edge of vertex " << v << " does not end there"); REQUIRE_MSG(p->edge->face && live.count(p->edge->face.get()), "edge of vertex " << v << " is in a face no longer in the mesh"); auto e = p->edge->face->edge; bool in = false; for (int k = 0; k < 3; k++, e = e->next) in |= e == p->edge; REQUIRE_MSG(in, "edge of vertex " << v << " is not in the loop of its face"); REQUIRE_MSG(p->coords == m.xy[v], "vertex " << v << " moved"); }
    if (!full) return;
    // getters
    for (auto &[v, l] : inc)
    {
        auto &p = m.vtx[v]; auto fa = gbs::getFacesAttachedToVertex(p); std::set<Tri> g; for (auto &f : fa) REQUIRE_MSG(g.insert(m.tri(f)).second, "face attached to vertex " << v << " twice"); REQUIRE_MSG(g == l, "faces attached to vertex " << v << ": " << g.size() << " instead of " << l.size());
        auto ne = gbs::getNeighboringVertices(*p); std::set<int> h; for (auto &q : ne) REQUIRE_MSG(h.insert(m.of(q)).second, "neighbour of " << v << " twice"); REQUIRE_MSG(h == nb[v], "neighbours of vertex " << v << ": " << h.size() << " instead of " << nb[v].size());
        bool bd = false; for (int w : nb[v]) bd |= de.count({v, w}) != de.count({w, v}); REQUIRE_MSG(gbs::is_boundary(*p) == bd, "is_boundary of vertex " << v);
        for (auto &[w, x] : inc) { auto e = gbs::findHalfEdge(p, m.vtx[w]); bool ex = v != w && de.count({v, w}); REQUIRE_MSG(bool(e) == ex, "findHalfEdge " << v << "->" << w << (ex ? " missed" : " found something")); if (e) REQUIRE_MSG(e->vertex == m.vtx[w] && e->previous->vertex == p && live.count(e->face.get()), "findHalfEdge " << v << "->" << w); }
    }
    for (auto &f : m.faces)
    {
        auto t = m.tri(f); std::multiset<Tri> g, w; for (int k = 0; k < 3; k++) { auto o = de.find({t[(k + 1) % 3], t[k]}); if (o != de.end()) w.insert(o->second); } for (auto &n : gbs::getNeighboringFaces(f)) { REQUIRE(n); g.insert(m.tri(n)); } REQUIRE_MSG(g == w, "neighbouring faces");
        std::vector<int> a, b, c; for (auto &v : gbs::getFaceVertices(f)) a.push_back(m.of(v)); for (auto &e : gbs::getFaceEdges(f)) { REQUIRE(e->face == f); b.push_back(m.of(e->vertex)); } REQUIRE(a.size() == 3 && a == b); REQUIRE_MSG((canon({a[0], a[1], a[2]}) == t), "vertices of a face"); auto co = gbs::getFaceCoords(f); int k = 0; REQUIRE(co.size() == 3); for (auto &x : co) REQUIRE(x == m.xy[a[k++]]); auto tv = gbs::getTriangleVertices(f); auto te = gbs::getTriangleEdges(f); auto tc = gbs::getTriangleCoords(f); std::set<int> q; for (k = 0; k < 3; k++) { REQUIRE(te[k]->vertex == tv[k] && tc[k] == tv[k]->coords && te[k]->face == f); q.insert(m.of(tv[k])); } REQUIRE(q == std::set<int>(t.begin(), t.end()));
        for (auto &[v, l] : inc) { auto e = gbs::getFaceEdge(f, m.vtx[v]); bool in = std::count(t.begin(), t.end(), v); REQUIRE_MSG(bool(e) == in && (!in || (e->vertex == m.vtx[v] && e->face == f)), "getFaceEdge"); }
        for (auto &e : te) { auto o = gbs::getNextFace(e), pr = gbs::getPreviousFace(e); DE d{m.of(e->vertex), m.of(e->previous->vertex)}, d2{m.of(e->next->vertex), m.of(e->vertex)}; REQUIRE_MSG(bool(o) == bool(de.count(d)) && (!o || m.tri(o) == de[d]), "getNextFace"); REQUIRE_MSG(bool(pr) == bool(de.count(d2)) && (!pr || m.tri(pr) == de[d2]), "getPreviousFace"); auto mid = gbs::edge_midpoint(e); auto &A = m.xy[d.first], &B = m.xy[d.second]; double l2 = 0; for (size_t k = 0; k < dim; k++) { REQUIRE(std::abs(mid[k] - (A[k] + B[k]) / 2) < 1e-12 * (1 + mag(A) + mag(B))); l2 += (A[k] - B[k]) * (A[k] - B[k]); } REQUIRE(std::abs(gbs::edge_sq_length(e) - l2) < 1e-12 * (1 + l2)); }
    }
    for (auto &f : m.faces) for (auto &g : m.faces) if (f != g) { auto [a, b] = gbs::getCommonEdges(f, g); auto t = m.tri(f); std::set<DE> w; for (int k = 0; k < 3; k++) { auto o = de.find({t[(k + 1) % 3], t[k]}); if (o != de.end() && o->second == m.tri(g)) w.insert({t[k], t[(k + 1) % 3]}); } REQUIRE_MSG(bool(a) == !w.empty() && bool(b) == !w.empty(), "getCommonEdges"); if (a) REQUIRE_MSG((a->face == f && b->face == g && a->opposite == b && w.count({m.of(a->previous->vertex), m.of(a->vertex)})), "getCommonEdges gives other edges"); }
    for (auto &f : m.faces) { std::vector<void *> it; auto b = gbs::begin(*f), z = gbs::end(*f); REQUIRE_MSG(b != z && !(b == z) && b == gbs::begin(*f) && z == gbs::end(*f), "a face begins where it ends"); for (auto i = b; !(i == z); ++i) { REQUIRE(i != z); it.push_back((*i).get()); REQUIRE(it.size() < 4); } auto e = f->edge; REQUIRE(it.size() == 3 && it[0] == e.get() && it[1] == e->next.get() && it[2] == e->next->next.get()); auto far = std::max_element(gbs::begin(*f), gbs::end(*f), [&](auto &p, auto &q) { return gbs::edge_sq_length(p) < gbs::edge_sq_length(q); }); for (int k = 0; k < 3; k++, e = e->next) REQUIRE_MSG(gbs::edge_sq_length(*far) >= gbs::edge_sq_length(e), "longest edge of a face by the standard algorithm"); }
    { gbs::HalfEdgeFace<double, dim> none; REQUIRE_MSG(gbs::begin(none) == gbs::end(none) && !(gbs::begin(none) != gbs::end(none)), "a face without edges"); }
    for (auto &f : m.faces) { auto e = f->edge; for (int k = 0; k < 3; k++, e = e->next) { auto &a = m.xy[m.of(e->previous->vertex)], &b = m.xy[m.of(e->vertex)]; double t = s.unit(), l2 = 0; for (size_t c = 0; c < dim; c++) l2 += (b[c] - a[c]) * (b[c] - a[c]); auto mid = gbs::edge_midpoint(e), at = gbs::getEdgePoint(e, t), half = gbs::getEdgePoint(e); REQUIRE_MSG(std::abs(gbs::edge_sq_length(e) - l2) <= 1e-12 * (1 + l2), "length of an edge"); for (size_t c = 0; c < dim; c++) REQUIRE_MSG(std::abs(mid[c] - (a[c] + b[c]) / 2) < 1e-12 * (1 + std::abs(mid[c])) && std::abs(half[c] - mid[c]) < 1e-12 * (1 + std::abs(mid[c])) && std::abs(at[c] - a[c] - t * (b[c] - a[c])) < 1e-12 * (1 + std::abs(a[c]) + std::abs(b[c])), "points of an edge");
        if (l2 > 0) { auto d = gbs::edge_direction(e); for (size_t c = 0; c < dim; c++) REQUIRE_MSG(std::abs(d[c] - (b[c] - a[c]) / std::sqrt(l2)) < 1e-12, "direction of an edge"); } auto ce = e->opposite ? gbs::getCommonEdge(f, e->opposite->face) : nullptr; if (e->opposite) REQUIRE_MSG(ce && ce->face == f && ce->opposite && ce->opposite->face == e->opposite->face, "edge shared by two faces"); } }
    // boundaries of the mesh and of a part of it
    for (int part = 0; part < 2; part++)
    {
        std::list<typename Mesh<dim>::F> l; MTri mt; for (auto &f : m.faces) if (!part || s.chance(1, 2)) { l.push_back(f); mt.insert(m.tri(f)); } if (l.empty()) continue; auto d = dedges(mt); std::set<DE> w, g; for (auto &[e, t] : d) if (!d.count({e.second, e.first})) w.insert(e);
        auto key = [&](auto &e) { return DE{m.of(e->previous->vertex), m.of(e->vertex)}; }; for (auto &e : gbs::getFacesBoundary(l)) REQUIRE_MSG(g.insert(key(e)).second, "boundary edge twice"); REQUIRE_MSG(g == w, "boundary of " << (part ? "some faces" : "the mesh") << ": " << g.size() << " edges instead of " << w.size()); auto loops = gbs::getOrientedFacesBoundaries(l); std::set<DE> h; for (auto &lp : loops) { REQUIRE(!lp.empty()); auto prev = lp.back(); for (auto &e : lp) { REQUIRE_MSG(h.insert(key(e)).second, "edge in two loops"); REQUIRE_MSG(prev->vertex == e->previous->vertex, "an oriented boundary is not a closed chain"); prev = e; } } REQUIRE_MSG(h == w, "oriented boundaries miss some edges"); if (!w.empty()) REQUIRE(gbs::getOrientedFacesBoundary(l).size() == loops.front().size());
    }
    auto vm = gbs::getVerticesMapFromFaces<double, dim>(m.faces); std::set<size_t> ix; REQUIRE_MSG(vm.size() == inc.size(), "map of the vertices: " << vm.size() << " instead of " << inc.size()); for (auto &[v, i] : vm) { REQUIRE(inc.count(m.of(v)) && i < vm.size()); ix.insert(i); } REQUIRE(ix.size() == vm.size()); auto vv = gbs::getVerticesVectorFromFaces<double, dim>(m.faces); std::set<int> vs; for (auto &v : vv) vs.insert(m.of(v)); REQUIRE_MSG(vv.size() == inc.size() && vs.size() == inc.size(), "vertices of the mesh"); auto em = gbs::getEdgesMap<double, dim>(m.faces); ix.clear(); for (auto &[e, i] : em) ix.insert(i); REQUIRE_MSG(em.size() == 3 * m.faces.size() && ix.size() == em.size() && *ix.rbegin() == em.size() - 1, "map of the half-edges");
    if constexpr (dim == 2)
    {
        double A = 0; bool ccw = true; for (auto &f : m.faces) { auto t = m.tri(f); double o = orient(m.xy[t[0]], m.xy[t[1]], m.xy[t[2]]); A += std::abs(o) / 2; ccw &= o > 0; REQUIRE_MSG((gbs::is_ccw(f) > 0) == (o > 0), "is_ccw"); } REQUIRE_MSG(ccw, "a face folded"); REQUIRE(gbs::are_face_ccw(m.faces)); REQUIRE_MSG(std::abs(gbs::getTriangle2dMeshArea(m.faces) - A) < 1e-11 * (1 + A) && std::abs(gbs::getTriangle2dMeshAreaPar(m.faces) - A) < 1e-11 * (1 + A), "area of the mesh");
        for (auto &f : m.faces) for (auto &e : gbs::getTriangleEdges(f)) { double w = gbs::is_locally_delaunay(e); if (!e->opposite) { REQUIRE(w == 0); continue; } auto &a = m.xy[m.of(e->previous->vertex)], &b = m.xy[m.of(e->vertex)], &c = m.xy[m.of(e->next->vertex)], &d = m.xy[m.of(e->opposite->next->vertex)]; using L = long double; auto inc = [](auto &a, auto &b, auto &c, auto &p, L &sc) { L ax = L(a[0]) - p[0], ay = L(a[1]) - p[1], bx = L(b[0]) - p[0], by = L(b[1]) - p[1], cx = L(c[0]) - p[0], cy = L(c[1]) - p[1], x = (ax * ax + ay * ay) * (bx * cy - cx * by), y = -(bx * bx + by * by) * (ax * cy - cx * ay), z = (cx * cx + cy * cy) * (ax * by - bx * ay); sc += std::abs(x) + std::abs(y) + std::abs(z); return x + y + z; }; L sc = 0, x = inc(a, b, c, d, sc); if (std::abs(x) > 1e-12L * sc) REQUIRE_MSG((w > 0) == (x > 0), "is_locally_delaunay is " << w << ", in circle " << double(x)); }
        for (auto &lp : gbs::getOrientedFacesBoundaries(m.faces)) { double a2 = 0; for (auto &e : lp) { auto &a = m.xy[m.of(e->previous->vertex)], &b = m.xy[m.of(e->vertex)]; a2 += a[0] * b[1] - a[1] * b[0]; } if (std::abs(a2) > 1e-6) REQUIRE_MSG(gbs::are_edges_2d_ccw<double>(lp) == (a2 > 0), "orientation of a boundary"); }
    }
}
template <size_t dim> static typename Mesh<dim>::P pt(Src &s) { typename Mesh<dim>::P p; for (auto &x : p) x = s.in(-16, 16); return p; }
// interiors of two ccw triangles of the plane are disjoint
static bool apart(const std::array<std::array<double, 2>, 3> &t, const std::array<std::array<double, 2>, 3> &u) { for (int w = 0; w < 2; w++) { auto &a = w ? u : t, &b = w ? t : u; for (int k = 0; k < 3; k++) { bool out = true; for (auto &p : b) out &= orient(a[k], a[(k + 1) % 3], p) <= 1e-9; if (out) return true; } } return false; }
template <size_t dim> static void history(Src &s)
{
    Mesh<dim> m; using P = typename Mesh<dim>::P; P a = pt<dim>(s), b = pt<dim>(s), c = pt<dim>(s); if constexpr (dim == 2) { double o = orient(a, b, c); DISCARD_IF(o == 0); if (o < 0) std::swap(b, c); } else DISCARD_IF(a == b || b == c || c == a);
    if (s.chance(1, 3) && dim == 2)
    {
        if constexpr (dim == 2) { std::vector<P> l{a, b, c}; auto f = gbs::getEncompassingMesh<double>(l); m.faces = f; REQUIRE(f.size() == 2); for (auto &h : f) for (auto &v : gbs::getFaceVertices(h)) if (!m.id.count(v.get())) m.add(v, v->coords); for (auto &h : f) m.model.insert(m.tri(h)); for (auto &p : l) { bool in = false; for (auto &t : m.model) { bool i = true; for (int k = 0; k < 3; k++) i &= orient(m.xy[t[k]], m.xy[t[(k + 1) % 3]], p) >= 0; in |= i; } REQUIRE_MSG(in, "a point is not in the mesh which encompasses it"); } s << "encompassing " << showp(l, 3) << ";"; }
    }
    else { auto e1 = gbs::make_shared_h_edge<double, dim>(a), e2 = gbs::make_shared_h_edge<double, dim>(b), e3 = gbs::make_shared_h_edge<double, dim>(c); auto l = {e1, e2, e3}; m.faces.push_back(gbs::make_shared_h_face<double, dim>(l)); m.add(e1->vertex, a); m.add(e2->vertex, b); m.add(e3->vertex, c); m.model.insert({0, 1, 2}); s << "triangle " << show(a) << show(b) << show(c) << ";"; }
    check(s, m, true); int n = s.in(1, 14), done = 0; std::set<int> kinds; size_t big = 0;
    for (int i = 0; i < n; i++)
    {
        int k = s.draw(9); auto de = dedges(m.model); auto ei = de.begin(); std::advance(ei, s.draw(de.size())); DE d = ei->first; Tri t = ei->second; auto e = m.edge(d); int third = -1; for (int v : t) if (v != d.first && v != d.second) third = v; bool bd = !de.count({d.second, d.first}); bool did = false;
        if (k <= 1 && bd) // a face on a boundary edge
        {
            P p = pt<dim>(s); bool ok = true; for (auto &q : m.xy) ok &= q != p; if constexpr (dim == 2) { ok &= orient(m.xy[d.second], m.xy[d.first], p) > 1e-9; if (ok) for (auto &u : m.model) ok &= apart({m.xy[d.second], m.xy[d.first], p}, {m.xy[u[0]], m.xy[u[1]], m.xy[u[2]]}); } if (!ok) continue;
            s << " add_face(" << d.first << "-" << d.second << " " << show(p) << ")"; auto f = s.chance(1, 2) ? gbs::add_face(e, p) : gbs::add_face(e->face, e, p); REQUIRE_MSG(f, "face refused on a boundary edge"); m.faces.push_back(f); typename Mesh<dim>::V nv; for (auto &v : gbs::getFaceVertices(f)) if (!m.id.count(v.get())) { REQUIRE(!nv); nv = v; } REQUIRE(nv); int x = m.add(nv, p); m.model.insert(canon({d.second, d.first, x})); did = true;
        }
        else if (k <= 1) { s << " add_face refused"; REQUIRE_MSG(!gbs::add_face(e, pt<dim>(s)) && !gbs::add_face(e->face, e, pt<dim>(s)), "a face was added on an edge which has two already"); auto o = e->opposite->face; REQUIRE(!gbs::add_face(o, e, pt<dim>(s))); }
        else if (k == 2 || (k == 3 && bd)) // a vertex in a face
        {
            if constexpr (dim == 2) { double u = s.in(1, 6), v = s.in(1, 6), w = s.in(1, 6); auto &A = m.xy[t[0]], &B = m.xy[t[1]], &C = m.xy[t[2]]; if (orient(A, B, C) < 1e-3) continue; P p = (A * u + B * v + C * w) / (u + v + w); auto f = m.face(t); auto nv = gbs::make_shared_h_vertex(p); s << " add_vertex(face " << t[0] << "," << t[1] << "," << t[2] << " " << show(p) << ")"; auto nf = gbs::add_vertex(f, nv); REQUIRE(nf.size() == 3); m.faces.remove(f); m.faces.insert(m.faces.end(), nf.begin(), nf.end()); int x = m.add(nv, p); m.model.erase(t); for (int q = 0; q < 3; q++) m.model.insert(canon({t[q], t[(q + 1) % 3], x})); did = true; }
        }
        else if (k == 3) // a vertex in the patch of two faces
        {
            if constexpr (dim == 2) { Tri t2 = de[{d.second, d.first}]; int f2 = -1; for (int v : t2) if (v != d.first && v != d.second) f2 = v; int q[4] = {d.second, third, d.first, f2}; P p = (m.xy[d.first] * 0.5 + m.xy[d.second] * 0.5); bool ok = true; for (int j = 0; j < 4; j++) ok &= orient(m.xy[q[j]], m.xy[q[(j + 1) % 4]], p) > 1e-4; if (!ok) continue; auto F1 = m.face(t), F2 = m.face(t2); auto loops = gbs::getOrientedFacesBoundaries(std::list{F1, F2}); REQUIRE(loops.size() == 1 && loops.front().size() == 4); auto nv = gbs::make_shared_h_vertex(p); s << " add_vertex(patch " << d.first << "-" << d.second << ")"; auto nf = gbs::add_vertex(loops.front(), nv); REQUIRE(nf.size() == 4); m.faces.remove(F1); m.faces.remove(F2); m.faces.insert(m.faces.end(), nf.begin(), nf.end()); int x = m.add(nv, p); m.model.erase(t); m.model.erase(t2); for (int j = 0; j < 4; j++) m.model.insert(canon({q[j], q[(j + 1) % 4], x})); did = true; }
        }
        else if (k == 4) // flip
        {
            if (bd) { auto f = m.face(t); std::vector<typename Mesh<dim>::F> far; for (auto &g : m.faces) if (g != f) { bool sh = false; auto u = m.tri(g); for (int j = 0; j < 3; j++) sh |= bool(de.count({u[(j + 1) % 3], u[j]})) && de[{u[(j + 1) % 3], u[j]}] == t; if (!sh) far.push_back(g); } if (far.empty()) continue; auto g = far[s.draw(far.size())]; s << " flip of faces apart"; gbs::flip(f, g); did = true; }
            else { Tri t2 = de[{d.second, d.first}]; int o = -1; for (int v : t2) if (v != d.first && v != d.second) o = v; if (de.count({third, o}) || de.count({o, third}) || o == third) continue; if constexpr (dim == 2) if (orient(m.xy[d.first], m.xy[o], m.xy[third]) < 1e-6 || orient(m.xy[o], m.xy[d.second], m.xy[third]) < 1e-6) continue; int cm = 0; for (int v : t) cm += std::count(t2.begin(), t2.end(), v); if (cm != 2) continue; s << " flip(" << d.first << "-" << d.second << ")"; auto F1 = m.face(t), F2 = m.face(t2); gbs::flip(F1, F2); m.model.erase(t); m.model.erase(t2); m.model.insert(canon({d.first, o, third})); m.model.insert(canon({o, d.second, third})); did = true; }
        }
        else if (k == 5) // split
        {
            s << " split(" << d.first << "-" << d.second << ")"; P p = (m.xy[d.first] + m.xy[d.second]) * 0.5; auto nv = gbs::splitHalfEdge(e, m.faces); REQUIRE(nv); for (size_t q = 0; q < dim; q++) REQUIRE_MSG(std::abs(nv->coords[q] - p[q]) < 1e-12, "split not in the middle"); int x = m.add(nv, nv->coords); m.model.erase(t); m.model.insert(canon({d.first, x, third})); m.model.insert(canon({x, d.second, third})); if (!bd) { Tri t2 = de[{d.second, d.first}]; int o = -1; for (int v : t2) if (v != d.first && v != d.second) o = v; m.model.erase(t2); m.model.insert(canon({d.second, x, o})); m.model.insert(canon({x, d.first, o})); } did = true;
        }
        else if (k == 6) // all the faces around a vertex
        {
            auto r = m.model; size_t q = 0; for (auto u = r.begin(); u != r.end();) if (std::count(u->begin(), u->end(), d.first)) { u = r.erase(u); q++; } else ++u; if (r.empty() || !manifold(r)) continue; s << " remove_faces(" << d.first << ")"; REQUIRE_MSG(gbs::remove_faces(m.faces, m.vtx[d.first]) == q, "number of faces removed"); gbs::repairVertexEdges<double, dim>(m.faces); m.model = r; did = true;
        }
        else if (k == 7)
        {
            auto r = m.model; r.erase(t); if (r.empty() || !manifold(r)) continue; s << " eraseFace(" << t[0] << "," << t[1] << "," << t[2] << ")"; auto it = m.faces.begin(); while (m.tri(*it) != t) ++it; auto nx = std::next(it); auto got = gbs::eraseFace(m.faces, it); REQUIRE_MSG(got == nx, "iterator after the face erased"); gbs::repairVertexEdges<double, dim>(m.faces); m.model = r; did = true;
        }
        else if (k == 8)
        {
            if constexpr (dim == 2)
            {
                double x = s.in(-16, 14) + 0.123, y = s.in(-16, 14) + 0.377, X = x + s.in(2, 20), Y = y + s.in(2, 20); std::vector<P> box{{x, y}, {X, y}, {X, Y}, {x, Y}}; if (s.chance(1, 2)) std::reverse(box.begin(), box.end()); bool ext = s.chance(1, 2); MTri r, tk; bool near = false; for (auto &u : m.model) { P g = (m.xy[u[0]] + m.xy[u[1]] + m.xy[u[2]]) / 3.; bool in = g[0] > x && g[0] < X && g[1] > y && g[1] < Y; for (double dd : {g[0] - x, g[0] - X, g[1] - y, g[1] - Y}) near |= std::abs(dd) < 1e-6; (in != ext ? tk : r).insert(u); } if (near || r.empty() || !manifold(r)) continue; s << (ext ? " takeExternal" : " takeInternal") << showp(box, 4); auto bnd = gbs::make_HalfEdges(box); if (s.chance(1, 3)) gbs::reverseBoundary(bnd); auto got = ext ? gbs::takeExternalFaces<double>(m.faces, bnd) : gbs::takeInternalFaces<double>(m.faces, bnd); MTri g; for (auto &f : got) g.insert(m.tri(f)); REQUIRE_MSG(g == tk && got.size() == tk.size(), "faces taken: " << got.size() << " instead of " << tk.size()); m.model = r; did = true;
            }
        }
        if (did) { done++; kinds.insert(k); big = std::max(big, m.model.size()); check(s, m, i % 3 == 2 || i == n - 1); }
    }
    check(s, m, true);
    if constexpr (dim == 2) // smoothing moves one vertex to the mean of its neighbours
    {
        auto de = dedges(m.model); int v = (*std::next(m.model.begin(), s.draw(m.model.size())))[0]; std::set<int> nb; for (auto &t : m.model) if (std::count(t.begin(), t.end(), v)) for (int w : t) if (w != v) nb.insert(w); P g{}; for (int w : nb) g = g + m.xy[w]; g = g / double(nb.size()); gbs::laplacian_smoothing(m.faces, *m.vtx[v]); REQUIRE_MSG(dist(m.vtx[v]->coords, g) < 1e-12 * (1 + mag(g)) * 10, "smoothed vertex " << v << " at " << show(m.vtx[v]->coords) << " instead of " << show(g)); m.xy[v] = m.vtx[v]->coords; check(s, m, false);
        // crossings of an edge with the edges of a face
        auto f = m.faces.front(), g2 = m.faces.back(); auto e = g2->edge; auto &A = m.xy[m.of(e->previous->vertex)], &B = m.xy[m.of(e->vertex)]; auto t = m.tri(f); bool w = false, unsure = false; for (int k = 0; k < 3; k++) { auto &C = m.xy[t[k]], &D = m.xy[t[(k + 1) % 3]]; double o[4] = {orient(A, B, C), orient(A, B, D), orient(C, D, A), orient(C, D, B)}; for (double x : o) unsure |= std::abs(x) < 1e-9 && x != 0; w |= o[0] * o[1] < 0 && o[2] * o[3] < 0; } if (!unsure) REQUIRE_MSG(gbs::areFacesEdgesIntersect(*e, *f) == w, "crossing of an edge with a face");
    }
    s.nontrivial(done >= 3 && kinds.size() >= 2 && big >= 4); s.label(big < 4 ? "small" : big < 12 ? "medium" : "large");
}
PBT_ARM(history_2d, 1200, 40000) { history<2>(s); }
PBT_ARM(history_3d, 800, 25000) { history<3>(s); }
// loops built from points and reversed
PBT_ARM(loops, 600, 20000)
{
    int n = s.in(3, 12); std::vector<std::array<double, 2>> l; for (int i = 0; i < n; i++) { double r = 1 + 3 * s.unit(), a = 2 * M_PI * (i + 0.8 * s.unit()) / n; l.push_back({r * std::cos(a) + 3, r * std::sin(a) - 2}); } bool rev = s.chance(1, 2); if (rev) std::reverse(l.begin(), l.end()); auto h = gbs::make_HalfEdges(l); REQUIRE(int(h.size()) == n); s << showp(l, 6);
    auto ok = [&](auto &h, bool ccw) { for (int i = 0; i < n; i++) { auto &e = h[i], &f = h[(i + 1) % n]; REQUIRE_MSG(e->next == f && f->previous == e, "loop is not chained in order"); } double a2 = 0; for (int i = 0; i < n; i++) { auto &a = h[i]->previous->vertex->coords, &b = h[i]->vertex->coords; a2 += a[0] * b[1] - a[1] * b[0]; } REQUIRE((a2 > 0) == ccw); REQUIRE_MSG(gbs::are_edges_2d_ccw<double>(h) == ccw, "orientation of a loop"); };
    for (int i = 0; i < n; i++) REQUIRE(h[i]->vertex->coords == l[i]); ok(h, !rev); gbs::reverseBoundary(h); ok(h, rev); for (int i = 0; i < n; i++) REQUIRE(h[i]->vertex->coords == l[n - 1 - i]); auto q = s.chance(1, 2); std::array<double, 2> p{3 + s.sym(4), -2 + s.sym(4)}; bool in = false; double nearest = 1e9; for (int i = 0; i < n; i++) { auto &a = l[i], &b = l[(i + 1) % n]; auto d = b - a; double t = std::clamp(((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / (d[0] * d[0] + d[1] * d[1]), 0., 1.); nearest = std::min(nearest, dist(p, a + d * t)); if ((a[1] > p[1]) != (b[1] > p[1]) && p[0] < a[0] + (p[1] - a[1]) * d[0] / d[1]) in = !in; } (void)q; if (nearest > 1e-7) REQUIRE_MSG(gbs::is_inside(p, h) == in, "inside a reversed loop"); s.nontrivial(n > 4); s.label(rev ? "clockwise" : "counter-clockwise");
}
// the elementary bricks: clouds of vertices and edges, association, chaining, linking, loops
PBT_ARM(bricks, 400, 9000)
{
    using P = std::array<double, 3>; int n = s.in(1, 12); std::vector<P> l; for (int i = 0; i < n; i++) l.push_back({s.sym(5), s.sym(5), s.sym(5)}); s << n << " points"; auto v = gbs::make_shared_h_vertices<double, 3>(l); auto e = gbs::make_shared_h_edges<double, 3>(l); REQUIRE(int(v.size()) == n && int(e.size()) == n); std::set<void *> u; for (int i = 0; i < n; i++) { REQUIRE(v[i]->coords == l[i] && !v[i]->edge); REQUIRE_MSG(e[i]->vertex->coords == l[i] && e[i]->vertex->edge == e[i] && !e[i]->face && !e[i]->opposite && !e[i]->next && !e[i]->previous, "a new edge"); u.insert(v[i].get()); u.insert(e[i]->vertex.get()); u.insert(e[i].get()); } REQUIRE(int(u.size()) == 3 * n);
    auto again = gbs::make_shared_h_edge<double, 3>(e[0]->vertex); REQUIRE_MSG(again->vertex == e[0]->vertex && again->vertex->edge == e[0], "a second edge takes the vertex of the first"); gbs::associate(e[0]->vertex, again); REQUIRE(e[0]->vertex->edge == again); if (n > 1) { auto v1 = e[1]->vertex; gbs::associate(v1, again); REQUIRE(again->vertex == v1 && v1->edge == again); gbs::associate(v1, e[1]); gbs::associate(e[0]->vertex, e[0]); REQUIRE(e[0]->vertex->edge == e[0] && v1->edge == e[1]); gbs::chain_edges(e[0], e[1]); REQUIRE(e[0]->next == e[1] && e[1]->previous == e[0] && !e[1]->next && !e[0]->previous); gbs::link_edges(e[0], e[1]); REQUIRE(e[0]->opposite == e[1] && e[1]->opposite == e[0]); e[0]->opposite = e[1]->opposite = nullptr; }
    auto f = gbs::make_shared_h_face<double, 3>(e); if (n < 2) { REQUIRE_MSG(!f, "a face of a single edge"); return; } REQUIRE(f && f->edge == e[0]); for (int i = 0; i < n; i++) REQUIRE_MSG(e[i]->face == f && e[i]->next == e[(i + 1) % n] && e[(i + 1) % n]->previous == e[i], "loop of a face"); auto c = gbs::getFaceCoords(f); REQUIRE(c.size() == l.size() && std::equal(c.begin(), c.end(), l.begin())); auto w = l; gbs::add_noise<double>(w); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) REQUIRE_MSG(std::abs(w[i][k] - l[i][k]) < 2e-15, "noise beyond rounding"); s.nontrivial(n > 2);
    gbs::HalfEdgeMesh<double, 3> m; m.vertices.push_back(e[0]->vertex); m.addFreeVertices(v); REQUIRE(int(m.vertices.size()) == n + 1 && m.vertices[0] == e[0]->vertex && std::equal(v.begin(), v.end(), m.vertices.begin() + 1));
}
