#include "shapes.h"
#include <gbs-render/vtkGbsRender.h>
#include <gbs-render/vtkgridrender.h>
#include <gbs/bscbuild.h>
#include <vtkAutoInit.h>
#include <vtkTexture.h>
#include <vtkImageData.h>
#include <vtkCellData.h>
VTK_MODULE_INIT(vtkRenderingOpenGL2);
VTK_MODULE_INIT(vtkInteractionStyle);
VTK_MODULE_INIT(vtkRenderingFreeType);
const char *pbt_property = "P24";
const char *pbt_rule = "random points, curves, surfaces, nets, meshes and loops turned into graphical objects; oracle: the points and cells the object must hold, computed from the geometry, and the quad precision evaluation of the shape; non-trivial: rectangular net, weights, several parts, or a curve of several spans";
using P3 = std::array<double, 3>;
static vtkPolyData *poly(vtkActor *a) { auto m = a->GetMapper(); REQUIRE(m); m->Update(); auto p = vtkPolyData::SafeDownCast(m->GetInput()); REQUIRE(p); return p; }
static P3 at(vtkPointSet *p, vtkIdType i) { P3 x; p->GetPoint(i, x.data()); return x; }
template <typename T, size_t N> static P3 pad(const std::array<T, N> &x) { P3 r{}; for (size_t c = 0; c < std::min<size_t>(3, N); c++) r[c] = double(x[c]); return r; }
static void same(const P3 &a, const P3 &b, double m, const char *what, size_t i) { for (int c = 0; c < 3; c++) REQUIRE_MSG(std::abs(a[c] - b[c]) <= 1e-5 * (1 + m), what << " " << i << ": " << show(a) << " instead of " << show(b)); }
static std::vector<vtkActor *> parts(vtkAssembly *a) { std::vector<vtkActor *> r; auto c = a->GetParts(); c->InitTraversal(); while (auto p = c->GetNextProp3D()) { if (auto q = vtkAssembly::SafeDownCast(p)) for (auto x : parts(q)) r.push_back(x); else if (auto x = vtkActor::SafeDownCast(p)) r.push_back(x); } return r; }
template <typename V> static void line(vtkActor *a, const V &pts, const char *what)
{
    auto p = poly(a); size_t n = pts.size(); REQUIRE_MSG(size_t(p->GetNumberOfPoints()) == n && p->GetNumberOfLines() == 1 && p->GetNumberOfPolys() == 0, what << ": " << p->GetNumberOfPoints() << " points for " << n); double m = 0; for (auto &x : pts) for (auto c : x) m = std::max(m, std::abs(double(c))); for (size_t i = 0; i < n; i++) same(at(p, i), pad(pts[i]), m, what, i);
    auto c = p->GetCell(0); REQUIRE(size_t(c->GetNumberOfPoints()) == n); for (size_t i = 0; i < n; i++) REQUIRE_MSG(size_t(c->GetPointId(i)) == i, what << ": vertex " << i << " of the line is point " << c->GetPointId(i));
}
template <typename V> static void dots(vtkActor *a, const V &pts, const char *what)
{
    auto p = poly(a); size_t n = pts.size(); REQUIRE_MSG(size_t(p->GetNumberOfPoints()) == n && p->GetNumberOfVerts() == n, what << ": " << p->GetNumberOfPoints() << " points for " << n); double m = 0; for (auto &x : pts) for (auto c : x) m = std::max(m, std::abs(double(c))); for (size_t i = 0; i < n; i++) same(at(p, i), pad(pts[i]), m, what, i);
}
static void colour(vtkActor *a, const P3 &c) { P3 x; a->GetProperty()->GetColor(x.data()); for (int k = 0; k < 3; k++) REQUIRE_MSG(std::abs(x[k] - c[k]) < 1e-6, "colour " << show(x) << " instead of " << show(c)); }
static P3 rcol(Src &s) { return {s.unit(), s.unit(), s.unit()}; }
template <typename T, size_t N> static void plain(Src &s)
{
    auto p = points<T, N>(s, s.in(2, 30)); auto c = rcol(s); s << showp(p); auto a = gbs::make_polyline(p, c); line(a, p, "polyline"); colour(a, c); std::vector<std::array<T, N>> q(p); gbs::points_vector<T, N> pv(p.begin(), p.end()); double sz = s.in(1, 20); bool sp = s.chance(1, 2); auto d = gbs::make_actor(pv, sz, sp, c); dots(d, p, "points"); colour(d, c); REQUIRE(d->GetProperty()->GetPointSize() == float(sz) && bool(d->GetProperty()->GetRenderPointsAsSpheres()) == sp);
    auto v = gbs::make_vtkPoints(p.begin(), p.end()); REQUIRE(size_t(v->GetNumberOfPoints()) == p.size()); for (size_t i = 0; i < p.size(); i++) { P3 x; v->GetPoint(i, x.data()); same(x, pad(p[i]), maxabs(p), "points", i); auto y = gbs::make_vtkPoint(p[i]); REQUIRE(y == pad(p[i])); } auto cp = rcol(s); auto g = gbs::make_ctrl_polygon(pv, c, cp); auto ps = parts(g); REQUIRE(ps.size() == 2); line(ps[0], p, "control polygon"); colour(ps[0], c); dots(ps[1], p, "poles"); colour(ps[1], cp);
    auto cd = gbs::make_actor(pv, pv); auto pp = parts(cd); REQUIRE(pp.size() == 3); line(pp[0], p, "points of the curve"); line(pp[1], p, "control polygon"); dots(pp[2], p, "poles");
    double f = s.real(0.1, 3); gbs::scale_parts(f, g); for (auto x : ps) { P3 k; x->GetScale(k.data()); REQUIRE_MSG(std::abs(k[0] - f) + std::abs(k[1] - f) + std::abs(k[2] - f) < 1e-9, "scale " << show(k) << " instead of " << f); } s.nontrivial(p.size() > 2); s.label("points");
}
PBT_ARM(points_2d, 400, 15000) { plain<double, 2>(s); }
PBT_ARM(points_3d, 400, 15000) { plain<double, 3>(s); }
PBT_ARM(points_float, 200, 8000) { plain<float, 3>(s); }
template <size_t N, bool rat> static void crv(Src &s)
{
    auto k = gcrv<N, rat>(s, 1, 4, 4); auto c = k.make(); size_t np = s.in(3, 60); double dev = s.one_of({0.05, 0.01, 0.2}); auto col = rcol(s); s << "p=" << k.K.p << " knots " << show(k.K.flat) << showp(k.P) << " np=" << np; auto onc = [&](vtkActor *a, size_t least, double dv) { auto p = poly(a); size_t n = p->GetNumberOfPoints(); REQUIRE_MSG(n >= least && p->GetNumberOfLines() == 1 && size_t(p->GetCell(0)->GetNumberOfPoints()) == n, n << " points instead of at least " << least); double M = k.scale(); same(at(p, 0), pad(k.val(k.K.lo())), M, "start", 0); same(at(p, n - 1), pad(k.val(k.K.hi())), M, "end", n - 1); for (size_t i = 0; i < n; i++) REQUIRE(p->GetCell(0)->GetPointId(i) == vtkIdType(i));
        // every point is on the curve, further on than the one before
        auto u = gbs::deviation_based_params<double, N>(c, least, dv); std::vector<double> uu(u.begin(), u.end()); REQUIRE_MSG(uu.size() == n, n << " points"); for (size_t i = 0; i < n; i++) same(at(p, i), pad(k.val(uu[i])), M, "point of the curve", i); };
    const gbs::Curve<double, N> &base = c; if (k.K.p > 1 && !k.K.has_multiple()) { auto a = gbs::make_actor(base, col, np, dev); onc(a, np, dev); colour(a, col); }
    gbs::crv_dsp<double, N, rat> d{&c}; d.col_crv = rcol(s); d.col_poles = rcol(s); d.col_ctrl = rcol(s); d.poles_on = s.chance(2, 3); d.line_width = float(s.in(1, 6)); if (k.K.p > 1 && !k.K.has_multiple()) { auto g = gbs::make_actor(d); auto ps = parts(g); REQUIRE(ps.size() == (d.poles_on ? 3 : 1)); onc(ps[0], 30, 0.01); colour(ps[0], d.col_crv); REQUIRE(ps[0]->GetProperty()->GetLineWidth() == d.line_width); if (d.poles_on) { std::vector<std::array<double, N>> q; for (auto &x : k.P) { std::array<double, N> y; for (size_t i = 0; i < N; i++) if constexpr (rat) y[i] = x[i] / x[N]; else y[i] = x[i]; q.push_back(y); } line(ps[1], q, "control polygon"); colour(ps[1], d.col_ctrl); dots(ps[2], q, "poles"); colour(ps[2], d.col_poles); } }
    s.nontrivial(k.K.brk.size() > 2 && k.K.p > 1); s.label(d.poles_on ? "with poles" : "without poles");
}
PBT_ARM(curve_2d, 150, 5000) { crv<2, false>(s); }
PBT_ARM(curve_3d, 150, 5000) { crv<3, false>(s); }
PBT_ARM(nurbs_2d, 150, 5000) { crv<2, true>(s); }
PBT_ARM(nurbs_3d, 150, 5000) { crv<3, true>(s); }
using Tri = std::array<P3, 3>;
static std::vector<Tri> canon(std::vector<Tri> t) { for (auto &x : t) { for (auto &p : x) for (auto &c : p) c = std::round(c * 1e3) / 1e3 + 0.; auto m = std::min_element(x.begin(), x.end()); std::rotate(x.begin(), m, x.end()); } std::sort(t.begin(), t.end()); return t; }
static std::vector<Tri> tris(vtkPolyData *p) { std::vector<Tri> r; for (vtkIdType i = 0; i < p->GetNumberOfCells(); i++) { auto c = p->GetCell(i); if (c->GetNumberOfPoints() == 3) r.push_back({at(p, c->GetPointId(0)), at(p, c->GetPointId(1)), at(p, c->GetPointId(2))}); else { // strips are cut
            for (int k = 0; k + 2 < c->GetNumberOfPoints(); k++) r.push_back({at(p, c->GetPointId(k)), at(p, c->GetPointId(k + 1 + k % 2)), at(p, c->GetPointId(k + 2 - k % 2))}); } } return r; }
static vtkPolyData *ds(vtkActor *a) { auto m = a->GetMapper(); auto p = vtkPolyData::SafeDownCast(vtkDataSetMapper::SafeDownCast(m)->GetInput()); REQUIRE(p); return p; }
static double area(const std::vector<Tri> &t) { double r = 0; for (auto &x : t) { P3 a, b; for (int c = 0; c < 3; c++) { a[c] = x[1][c] - x[0][c]; b[c] = x[2][c] - x[0][c]; } r += (a[0] * b[1] - a[1] * b[0]) / 2; } return r; }
PBT_ARM(surface, 120, 4000)
{
    size_t n1 = s.in(2, 14), n2 = s.in(2, 14); auto S = gsrf<false>(s, 1, 3, s.chance(1, 2)); for (auto &x : S.P) { auto i = &x - &S.P[0]; x[0] = 3. * (i % S.U.n()); x[1] = 3. * (i / S.U.n()) + 0.3 * x[0]; x[2] *= 0.2; } auto g = S.make(); const gbs::Surface<double, 3> &b = g; auto col = rcol(s); auto a = gbs::make_actor(b, col, n1, n2); colour(a, col); auto p = ds(a); s << n1 << "x" << n2; auto t = tris(p); REQUIRE_MSG(t.size() == 2 * (n1 - 1) * (n2 - 1), t.size() << " triangles");
    // nodes of the grid of parameters, and nothing else
    std::set<P3> have, want; auto r3 = [](P3 x) { for (auto &c : x) c = std::round(c * 1e3) / 1e3 + 0.; return x; }; for (auto &x : t) for (auto &q : x) have.insert(r3(q)); std::vector<P3> grid; for (size_t j = 0; j < n2; j++) for (size_t i = 0; i < n1; i++) grid.push_back(S.val(S.U.lo() + (S.U.hi() - S.U.lo()) * i / (n1 - 1), S.V.lo() + (S.V.hi() - S.V.lo()) * j / (n2 - 1))); for (auto &q : have) { double d = 1e9; for (auto &x : grid) d = std::min(d, dist(x, q)); REQUIRE_MSG(d < 3e-3, "vertex " << show(q) << " is not on the grid"); } for (auto &q : grid) { double d = 1e9; for (auto &x : have) d = std::min(d, dist(x, q)); REQUIRE_MSG(d < 3e-3, "node " << show(q) << " is in no triangle"); }
    // the surface is a graph over the plane: the triangles cover the projection of the grid once
    double w = 0; for (size_t j = 0; j + 1 < n2; j++) for (size_t i = 0; i + 1 < n1; i++) { auto &A = grid[i + n1 * j], &B = grid[i + 1 + n1 * j], &C = grid[i + 1 + n1 * (j + 1)], &D = grid[i + n1 * (j + 1)]; w += area({{A, B, C}, {A, C, D}}); } for (auto &x : t) REQUIRE_MSG(area({x}) > 0, "triangle turned over"); REQUIRE_MSG(std::abs(area(t) - w) < 1e-4 * std::abs(w), "area " << area(t) << " instead of " << w); s.nontrivial(n1 != n2); s.label(n1 == n2 ? "square" : "rectangular");
}
PBT_ARM(nets, 300, 10000)
{
    size_t ni = s.in(2, 8), nj = s.in(2, 8); gbs::points_vector<double, 3> P(ni * nj); auto r = s.bulk(); for (auto &x : P) for (auto &c : x) c = r.range(-5, 5); s << ni << "x" << nj; double lw = s.in(1, 5), op = s.real(0.1, 1); auto col = rcol(s); auto a = gbs::make_lattice_lines(P, ni, float(lw), op, col.data()); auto ps = parts(a); REQUIRE_MSG(ps.size() == ni + nj, ps.size() << " lines"); for (size_t i = 0; i < ni; i++) { std::vector<P3> l; for (size_t j = 0; j < nj; j++) l.push_back(P[i + ni * j]); line(ps[i], l, "line along V"); } for (size_t j = 0; j < nj; j++) line(ps[ni + j], std::vector<P3>(P.begin() + ni * j, P.begin() + ni * (j + 1)), "line along U"); for (auto x : ps) { colour(x, col); REQUIRE(std::abs(x->GetProperty()->GetOpacity() - op) < 1e-9 && x->GetProperty()->GetLineWidth() == float(lw)); }
    auto g = gbs::make_structuredgrid(P, ni, nj); int d[3]; g->GetDimensions(d); REQUIRE(d[0] == int(ni) && d[1] == int(nj) && d[2] == 1 && size_t(g->GetNumberOfPoints()) == ni * nj && size_t(g->GetNumberOfCells()) == (ni - 1) * (nj - 1)); for (size_t i = 0; i < P.size(); i++) same(at(g, i), P[i], 5, "node", i); double val = s.sym(9); gbs::add_value(g.Get(), "f", val); auto arr = g->GetPointData()->GetArray("f"); REQUIRE(arr); REQUIRE_MSG(size_t(arr->GetNumberOfTuples()) == P.size(), arr->GetNumberOfTuples() << " values for " << P.size() << " nodes"); for (size_t i = 0; i < P.size(); i++) REQUIRE(arr->GetTuple1(i) == val); auto ac = gbs::make_structuredgrid_actor(P, ni, nj); REQUIRE(ac->GetProperty()->GetEdgeVisibility());
    std::vector<std::array<vtkIdType, 3>> t; for (size_t k = s.in(1, 6); k--;) { vtkIdType x = r.below(P.size()), y = r.below(P.size()), z = r.below(P.size()); if (x != y && y != z && x != z) t.push_back({x, y, z}); } DISCARD_IF(t.empty()); auto as = gbs::make_actor(P, t, P, ni); auto q = parts(as); REQUIRE_MSG(q.size() == 1 + ni + nj + 1, q.size() << " parts"); dots(q.back(), P, "poles"); line(q[1], std::vector<P3>([&] { std::vector<P3> l; for (size_t j = 0; j < nj; j++) l.push_back(P[ni * j]); return l; }()), "net"); s.nontrivial(ni != nj); s.label(ni == nj ? "square" : "rectangular");
}
PBT_ARM(meshes, 300, 10000)
{
    int n = s.in(3, 25); std::vector<std::array<double, 2>> X; auto r = s.bulk(); for (int i = 0; i < n; i++) X.push_back({r.range(0, 1), r.range(0, 1)}); auto F = gbs::delaunay2DBoyerWatson<double>(X, 1e-10); DISCARD_IF(F.size() == 0); s << n << " points, " << F.size() << " faces"; std::vector<std::array<std::array<double, 2>, 3>> W; for (auto &f : F) { std::array<std::array<double, 2>, 3> w; int i = 0; for (auto &v : gbs::getFaceVertices(f)) w[i++] = v->coords; W.push_back(w); }
    auto cmp = [&](vtkPolyData *p, auto &&map, const char *what) { REQUIRE_MSG(size_t(p->GetNumberOfPolys()) == F.size(), what); size_t k = 0; std::set<vtkIdType> used; for (auto &f : W) { auto c = p->GetCell(k++); REQUIRE(c->GetNumberOfPoints() == 3); for (int i = 0; i < 3; i++) { used.insert(c->GetPointId(i)); same(at(p, c->GetPointId(i)), map(f[i]), 10, what, k); } } REQUIRE_MSG(used.size() == size_t(p->GetNumberOfPoints()), what << ": points used by no face"); std::set<std::array<double, 2>> all; for (auto &f : W) for (auto &x : f) all.insert(x); REQUIRE_MSG(all.size() == used.size(), what << ": vertices shared by faces are not shared"); };
    auto p = gbs::make_polydata_from_faces<double, 2>(F); cmp(p, [](auto &x) { return P3{x[0], x[1], 0}; }, "plane mesh"); auto S = gsrf<false>(s, 2, 3, true, 1); auto g = S.make(); auto q = gbs::make_polydata_from_faces<double>(F, static_cast<const gbs::Surface<double, 3> &>(g)); cmp(q, [&](auto &x) { return S.val(x[0], x[1]); }, "mesh on the surface"); auto nr = q->GetPointData()->GetNormals(); REQUIRE(nr && nr->GetNumberOfTuples() == q->GetNumberOfPoints()); size_t k = 0; for (auto &f : W) { auto c = q->GetCell(k++); for (int i = 0; i < 3; i++) { P3 N; nr->GetTuple(c->GetPointId(i), N.data()); auto a = S.val(f[i][0], f[i][1], 1, 0), b = S.val(f[i][0], f[i][1], 0, 1); P3 w{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double m = mag(w); if (m < 1e-3) continue; for (int c2 = 0; c2 < 3; c2++) REQUIRE_MSG(std::abs(N[c2] - w[c2] / m) < 1e-4, "normal " << show(N)); } }
    auto act = gbs::faces_mesh_actor<double, 2>(F); REQUIRE(act); cmp(poly(act), [](auto &x) { return P3{x[0], x[1], 0}; }, "actor"); auto act2 = gbs::surface_mesh_actor<double>(F, static_cast<const gbs::Surface<double, 3> &>(g)); cmp(poly(act2), [&](auto &x) { return S.val(x[0], x[1]); }, "actor on the surface");
    // the boundary, closed or a part of it
    auto B = gbs::getOrientedFacesBoundary(F); std::vector<std::shared_ptr<gbs::HalfEdge<double, 2>>> E(B.begin(), B.end()); auto chain = [&](auto &E2, bool closed) { auto l = gbs::make_polydata_from_edges_loop<double, 2>(E2); REQUIRE(l->GetNumberOfLines() == 1); auto c = l->GetCell(0); auto first = E2.front()->previous; std::vector<std::array<double, 2>> w; if (first) w.push_back(first->vertex->coords); for (auto &e : E2) w.push_back(e->vertex->coords); REQUIRE_MSG(size_t(c->GetNumberOfPoints()) == w.size(), c->GetNumberOfPoints() << " points of the line instead of " << w.size()); for (size_t i = 0; i < w.size(); i++) { REQUIRE_MSG(c->GetPointId(i) >= 0 && c->GetPointId(i) < l->GetNumberOfPoints(), "point " << c->GetPointId(i) << " of " << l->GetNumberOfPoints()); same(at(l, c->GetPointId(i)), pad(w[i]), 1, closed ? "loop" : "chain", i); } };
    auto cp = gbs::make_HalfEdges<double, 2>(std::vector<std::array<double, 2>>(X)); chain(cp, true); if (cp.size() > 3) { std::vector<std::shared_ptr<gbs::HalfEdge<double, 2>>> part(cp.begin() + 1, cp.begin() + 1 + s.in(1, int(cp.size()) - 3)); chain(part, false); for (auto &e : part) e->previous = nullptr; if (part.size() > 1) chain(part, false); } s.nontrivial(F.size() > 2); s.label("mesh");
}
PBT_ARM(sets_and_dashes, 300, 8000)
{
    int n = s.in(0, 5); std::vector<std::shared_ptr<gbs::BSCurve<double, 3>>> L; std::vector<gbs::points_vector<double, 3>> Q; for (int i = 0; i < n; i++) { auto k = points<double, 3>(s, s.in(3, 9)); Q.push_back(gbs::points_vector<double, 3>(k.begin(), k.end())); L.push_back(std::make_shared<gbs::BSCurve<double, 3>>(std::vector<P3>{{0, 0, double(i)}, {1, double(i), 0}, {2, 0, 0}}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2)); } auto a = gbs::make_actor(Q); auto ps = parts(a); REQUIRE_MSG(ps.size() == size_t(n), ps.size() << " parts for " << n); for (int i = 0; i < n; i++) dots(ps[i], Q[i], "list of points"); auto b = gbs::make_actor(L); auto pb = parts(b); REQUIRE(pb.size() == size_t(n)); for (int i = 0; i < n; i++) { auto p = poly(pb[i]); same(at(p, 0), P3{0, 0, double(i)}, 5, "start of the curve", i); }
    int pat = s.in(0, 0xFFFF), rep = s.in(1, 4); auto pts = points<double, 3>(s, s.in(2, 12)); P3 col{1, 0, 0}; auto l = gbs::make_polyline(pts, col); gbs::StippledLine(l, pat, rep); auto t = l->GetTexture(); REQUIRE(t); auto im = vtkImageData::SafeDownCast(t->GetInputDataObject(0, 0)); REQUIRE(im); int d[3]; im->GetDimensions(d); REQUIRE(d[0] == 16 * rep && d[1] == 1); s << "pattern " << pat << " x" << rep; auto px = static_cast<unsigned char *>(im->GetScalarPointer()); for (int i = 0; i < 16 * rep; i++) REQUIRE_MSG((px[4 * i + 3] == 255) == bool(pat >> (i / rep) & 1), "pixel " << i); auto tc = poly(l)->GetPointData()->GetTCoords(); REQUIRE(tc && size_t(tc->GetNumberOfTuples()) == pts.size()); line(l, pts, "dashed line"); s.nontrivial(n > 1); s.label("sets");
}
PBT_ARM(curvature, 100, 3000)
{
    double R = s.real(0.5, 3), sc = s.real(0.05, 0.3); size_t np = s.in(5, 20); bool lg = s.chance(1, 2); auto c = gbs::build_circle<double, 2>(R, std::array<double, 2>{1., -2.}); auto a = gbs::make_curvature<double, 2>(c, sc, np, lg); auto ps = parts(a); s << "R=" << R << " np=" << np; REQUIRE_MSG(ps.size() >= np + 1, ps.size() << " parts"); auto p = poly(ps[0]); REQUIRE(size_t(p->GetNumberOfPoints()) == np); for (size_t i = 0; i < np; i++) { auto q = poly(ps[1 + i]); P3 x = at(q, 0), y = at(q, 1), z = at(p, i); REQUIRE_MSG(std::abs(std::hypot(x[0] - 1, x[1] + 2) - R) < 1e-4 * R, "foot off the curve"); same(y, z, 10, "tip", i); double cx = (y[0] - x[0]) * (x[0] - 1) + (y[1] - x[1]) * (x[1] + 2), cy = (y[0] - x[0]) * (x[1] + 2) - (y[1] - x[1]) * (x[0] - 1); REQUIRE_MSG(cx > 0 && std::abs(cy) < 1e-3 * std::abs(cx), "whisker not along the normal, outwards"); } s.nontrivial(); s.label(lg ? "log" : "linear");
}
// faces with any number of corners, and normals computed from the mesh of a surface in the plane or in space
template <size_t N> static vtkSmartPointer<vtkPolyData> on_surface(const auto &F, const gbs::Surface<double, N> &g) { return gbs::make_polydata_from_faces<double, N>(F, g); }
PBT_ARM(polygons, 300, 8000)
{
    int nf = s.in(1, 5); std::vector<std::shared_ptr<gbs::HalfEdgeFace<double, 2>>> F; std::vector<std::vector<std::array<double, 2>>> W; for (int k = 0; k < nf; k++) { int n = s.in(3, 8); double a0 = s.real(0, 6), r = s.real(.05, .3); std::vector<std::array<double, 2>> x; for (int i = 0; i < n; i++) x.push_back({.5 + .1 * k - .2 + r * std::cos(a0 + 6.283185307 * i / n), .5 + r * std::sin(a0 + 6.283185307 * i / n)}); auto e = gbs::make_HalfEdges<double, 2>(x); auto f = gbs::make_shared_h_face<double, 2>(e); REQUIRE(f); F.push_back(f); W.emplace_back(); for (auto &v : gbs::getFaceVertices(f)) W.back().push_back(v->coords); REQUIRE_MSG(W.back().size() == size_t(n), "corners of a face"); }
    s << nf << " faces of"; for (auto &w : W) s << " " << w.size(); auto cmp = [&](vtkPolyData *p, auto &&map, const char *what) { REQUIRE_MSG(size_t(p->GetNumberOfPolys()) == F.size(), what); for (size_t k = 0; k < W.size(); k++) { auto c = p->GetCell(k); REQUIRE_MSG(size_t(c->GetNumberOfPoints()) == W[k].size(), what << ": face " << k << " of " << W[k].size() << " corners has " << c->GetNumberOfPoints()); for (size_t i = 0; i < W[k].size(); i++) same(at(p, c->GetPointId(i)), map(W[k][i]), 10, what, k); } };
    auto p = gbs::make_polydata_from_faces<double, 2>(F); cmp(p, [](auto &x) { return P3{x[0], x[1], 0}; }, "polygons"); auto S = gsrf<false>(s, 2, 3, true, 1); auto g = S.make(); auto q = on_surface<3>(F, g); cmp(q, [&](auto &x) { return S.val(x[0], x[1]); }, "polygons on the surface"); auto nr = q->GetPointData()->GetNormals(); REQUIRE_MSG(!nr || nr->GetNumberOfTuples() == q->GetNumberOfPoints(), nr->GetNumberOfTuples() << " normals for " << q->GetNumberOfPoints() << " points"); s.nontrivial(nf > 1); s.label("polygons");
}
PBT_ARM(mesh_normals, 200, 6000)
{
    int n = s.in(3, 25); std::vector<std::array<double, 2>> X; auto r = s.bulk(); for (int i = 0; i < n; i++) X.push_back({r.range(0, 1), r.range(0, 1)}); auto F = gbs::delaunay2DBoyerWatson<double>(X, 1e-10); DISCARD_IF(F.size() == 0); auto S = gsrf<false>(s, 2, 3, true, 1); auto g = S.make(); s << n << " points, " << F.size() << " faces";
    auto q = on_surface<3>(F, g); auto nr = q->GetPointData()->GetNormals(); REQUIRE(nr); REQUIRE_MSG(nr->GetNumberOfTuples() == q->GetNumberOfPoints(), nr->GetNumberOfTuples() << " normals for " << q->GetNumberOfPoints() << " points"); bool plane = s.chance(1, 3); if (plane) { P3 o = {s.sym(3), s.sym(3), s.sym(3)}, a = {s.real(.5, 2), s.sym(1), s.sym(1)}, b = {s.sym(1), s.real(2, 4), s.sym(1)}; gbs::BSSurface<double, 3> pl({o, P3{o[0] + a[0], o[1] + a[1], o[2] + a[2]}, P3{o[0] + b[0], o[1] + b[1], o[2] + b[2]}, P3{o[0] + a[0] + b[0], o[1] + a[1] + b[1], o[2] + a[2] + b[2]}}, {0., 0., 1., 1.}, {0., 0., 1., 1.}, 1, 1); auto t = on_surface<3>(F, pl); auto nt = t->GetPointData()->GetNormals(); REQUIRE(nt && nt->GetNumberOfTuples() == t->GetNumberOfPoints()); P3 w{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double m = mag(w); for (vtkIdType i = 0; i < nt->GetNumberOfTuples(); i++) { P3 N; nt->GetTuple(i, N.data()); double d = std::abs(N[0] * w[0] + N[1] * w[1] + N[2] * w[2]) / m; REQUIRE_MSG(std::abs(d - 1) < 1e-4, "normal " << show(N) << " of a plane"); } }
    s.nontrivial(F.size() > 2); s.label(plane ? "plane" : "curved");
}
