#include "shapes.h"
#include <gbs-occt/curvesbuild.h>
#include <gbs-occt/surfacesbuild.h>
#include <gbs-occt/brepbuilders.h>
#include <gbs-occt/containers.h>
#include <gbs-occt/geomprim.h>
#include <gbs-occt/measure.h>
#include <gbs-occt/intersections.h>
#include <gbs-occt/funtionsforsolver.h>
#include <gbs-occt/export.h>
#include <IGESControl_Reader.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <GeomAdaptor_Curve.hxx>
#include <Geom2dAdaptor_Curve.hxx>
#include <GeomAdaptor_Surface.hxx>
#include <Geom_TrimmedCurve.hxx>
#include <Geom_Line.hxx>
#include <Geom_Circle.hxx>
#include <Geom_Plane.hxx>
#include <gp_Ax2.hxx>
#include <gp_Ax3.hxx>
#include <gp_Circ.hxx>
#include <TopoDS_Shell.hxx>
namespace ou = occt_utils;
const char *pbt_property = "P23";
const char *pbt_rule = "curves and surfaces of the library of any degree, knots and weights, point lists with and without imposed tangents, polygons, boxes, points and curves; oracle: the quad precision evaluation of the library's own definition against the evaluation of the converted object by Open CASCADE, the interpolation conditions, closed formulas and fine sampling for lengths, areas, centres and nearest points; non-trivial: more than one span and degree above 1, or an imposed tangent, or several edges";
template <size_t N> static std::array<double, N> xyz(const gp_Pnt &p) { return {p.X(), p.Y(), p.Z()}; }
static std::array<double, 3> arr(const gp_Pnt &p) { return {p.X(), p.Y(), p.Z()}; }
static std::array<double, 3> arr(const gp_Vec &p) { return {p.X(), p.Y(), p.Z()}; }
static std::array<double, 2> arr(const gp_Pnt2d &p) { return {p.X(), p.Y()}; }
static std::array<double, 2> arr(const gp_Vec2d &p) { return {p.X(), p.Y()}; }
static std::array<double, 3> operator-(const gp_Pnt &a, const std::array<double, 3> &b) { return {a.X() - b[0], a.Y() - b[1], a.Z() - b[2]}; }
template <size_t N, bool rat> static void conv(Src &s)
{
    auto c = gcrv<N, rat>(s, 1, 8, 6); auto g = c.make(); s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P);
    auto o = [&] { if constexpr (rat) return ou::NURBSplineCurve(g); else return ou::BSplineCurve(g); }();
    REQUIRE(!o.IsNull()); REQUIRE(o->Degree() == int(c.K.p) && o->NbPoles() == int(c.P.size()) && o->NbKnots() == int(c.K.brk.size()));
    for (size_t i = 0; i < c.K.brk.size(); i++) REQUIRE_MSG(o->Knot(i + 1) == c.K.brk[i] && o->Multiplicity(i + 1) == int(c.K.mult[i]), "knot " << i << ": " << o->Knot(i + 1) << " x" << o->Multiplicity(i + 1) << " instead of " << c.K.brk[i] << " x" << c.K.mult[i]);
    for (size_t i = 0; i < c.P.size(); i++) { auto q = arr(o->Pole(i + 1)); double w = 1; if constexpr (rat) w = c.P[i][N]; for (size_t k = 0; k < N; k++) REQUIRE_MSG(std::abs(q[k] - c.P[i][k] / w) <= 1e-14 * (1 + std::abs(c.P[i][k] / w)), "pole " << i); if constexpr (rat) REQUIRE(std::abs(o->Weight(i + 1) / o->Weight(1) - w / c.P[0][N]) <= 1e-13 * w / c.P[0][N]); else REQUIRE(o->Weight(i + 1) == 1); }
    double M = c.scale(); int n = 6; for (int t = 0; t < n; t++)
    {
        double u = t == 0 ? c.K.lo() : t == 1 ? c.K.hi() : inner_param(s, c.K); auto r = c.at(u, 3); gp_Pnt p; double h = c.K.minspan() / c.K.p;
        auto q = arr(o->Value(u)); for (size_t k = 0; k < N; k++) REQUIRE_MSG(std::abs(q[k] - double(r[0].v[k])) <= 1e-11 * M, "point at " << u << ": " << q[k] << " instead of " << double(r[0].v[k]));
        if (t > 1) { for (int d = 1; d <= 3; d++) { auto v = arr(o->DN(u, d)); auto gv = g.value(u, d); for (size_t k = 0; k < N; k++) { double tol = 1e-10 * M / std::pow(h, d) * (rat ? 10 : 1); REQUIRE_MSG(std::abs(v[k] - double(r[d].v[k])) <= tol && std::abs(v[k] - gv[k]) <= tol, "derivative " << d << " at " << u << ": " << v[k] << " instead of " << double(r[d].v[k])); } } }
    }
    s.nontrivial(c.K.brk.size() > 2 && c.K.p > 1); s.label(c.K.has_multiple() ? "multiple knots" : "simple knots");
}
PBT_ARM(curve_2d, 400, 20000) { conv<2, false>(s); }
PBT_ARM(curve_3d, 400, 20000) { conv<3, false>(s); }
PBT_ARM(nurbs_2d, 400, 20000) { conv<2, true>(s); }
PBT_ARM(nurbs_3d, 400, 20000) { conv<3, true>(s); }
PBT_ARM(surface, 400, 20000)
{
    auto S = gsrf<false>(s, 1, 5, s.chance(1, 2)); auto g = S.make(); auto o = ou::BSplineSurface(g); s << "p=" << S.U.p << " q=" << S.V.p << " U=" << show(S.U.flat) << " V=" << show(S.V.flat);
    REQUIRE(o->UDegree() == int(S.U.p) && o->VDegree() == int(S.V.p) && o->NbUPoles() == int(S.U.n()) && o->NbVPoles() == int(S.V.n()));
    for (size_t i = 0; i < S.U.n(); i++) for (size_t j = 0; j < S.V.n(); j++) REQUIRE_MSG(arr(o->Pole(i + 1, j + 1)) == S.P[i + S.U.n() * j], "pole " << i << "," << j);
    double u1, u2, v1, v2; o->Bounds(u1, u2, v1, v2); REQUIRE(u1 == S.U.lo() && u2 == S.U.hi() && v1 == S.V.lo() && v2 == S.V.hi()); double M = S.scale();
    for (int t = 0; t < 6; t++) { double u = inner_param(s, S.U), v = inner_param(s, S.V); if (t == 0) u = u1; if (t == 1) v = v2; auto p = arr(o->Value(u, v)); auto w = S.val(u, v); near<3>(p, w, 1e-11 * M, "point", u); if (t > 1) { auto d = arr(o->DN(u, v, 1, 1)); auto e = S.val(u, v, 1, 1); near<3>(d, e, 1e-9 * M / (S.U.minspan() * S.V.minspan()), "mixed derivative", u); d = arr(o->DN(u, v, 1, 0)); near<3>(d, S.val(u, v, 1, 0), 1e-9 * M / S.U.minspan(), "derivative along U", u); d = arr(o->DN(u, v, 0, 1)); near<3>(d, S.val(u, v, 0, 1), 1e-9 * M / S.V.minspan(), "derivative along V", v); } }
    s.nontrivial(S.U.p > 1 && S.V.p > 1 && S.U.n() != S.V.n()); s.label(S.U.n() == S.V.n() ? "square" : "not square");
}
PBT_ARM(containers, 1500, 60000)
{
    int n = s.in(1, 20), st = s.in(-3, 5); auto r = s.bulk(); std::vector<double> v(n); std::vector<int> w(n); std::vector<std::array<double, 2>> p2(n); std::vector<std::array<double, 3>> p3(n); for (int i = 0; i < n; i++) { v[i] = r.range(-5, 5); w[i] = int(r.below(9)); for (auto &x : p2[i]) x = r.range(-5, 5); for (auto &x : p3[i]) x = r.range(-5, 5); } s << "n=" << n << " first index " << st;
    { auto a = ou::col_from_vec(v, st); auto b = ou::col_from_vec(w, st); REQUIRE(a.Lower() == st && a.Upper() == st + n - 1 && b.Length() == n); for (int i = 0; i < n; i++) REQUIRE(a(st + i) == v[i] && b(st + i) == w[i]); }
    { auto a = ou::col_from_vec<gp_Pnt2d>(p2, st); auto b = ou::col_from_vec<gp_Pnt>(p3, st); auto c = ou::col_from_vec<gp_Vec>(p3, st); auto d = ou::col_from_vec<gp_Vec2d>(p2, st); REQUIRE(a.Lower() == st && a.Length() == n && b.Lower() == st && b.Length() == n && c.Length() == n && d.Length() == n); for (int i = 0; i < n; i++) REQUIRE(arr(a(st + i)) == p2[i] && arr(b(st + i)) == p3[i] && arr(c(st + i)) == p3[i] && arr(d(st + i)) == p2[i]); }
    { auto m = ou::to_math_vec(v); REQUIRE(m.Lower() == 1 && m.Upper() == n); for (int i = 0; i < n; i++) REQUIRE(m(i + 1) == v[i]); REQUIRE(ou::from_math_vec(m) == v); math_Vector k(st, st + n - 1); for (int i = 0; i < n; i++) k(st + i) = v[i]; REQUIRE(ou::from_math_vec(k) == v); }
    { int nj = s.in(1, 6); if (n % nj) { bool th = false; try { ou::col2_from_vec<gp_Pnt>(p3, nj, st); } catch (const std::length_error &) { th = true; } REQUIRE_MSG(th, "array of " << n << " points accepted in rows of " << nj); } else { auto a = ou::col2_from_vec<gp_Pnt>(p3, nj, st); int ni = n / nj; REQUIRE(a.LowerRow() == st && a.ColLength() == ni && a.LowerCol() == st && a.RowLength() == nj); for (int i = 0; i < ni; i++) for (int j = 0; j < nj; j++) REQUIRE(arr(a(st + i, st + j)) == p3[i + ni * j]); } }
    { std::list<int> l(w.begin(), w.end()); auto a = ou::col_from_list(l); auto b = ou::col_from_list(w); REQUIRE(a.Length() == n && b.Length() == n); for (int i = 0; i < n; i++) REQUIRE(a(i + 1) == w[i] && b(i + 1) == w[i]); }
    REQUIRE(arr(ou::point(p3[0])) == p3[0] && arr(ou::point(p2[0])) == p2[0] && arr(ou::vector(p3[0])) == p3[0] && arr(ou::vector(p2[0])) == p2[0] && ou::coord(p3[0]).Z() == p3[0][2] && ou::coord(p3[0]).Y() == p3[0][1] && ou::coord(p2[0]).X() == p2[0][0]);
    std::vector<std::array<double, 4>> h(n); for (int i = 0; i < n; i++) { double x = r.range(0.2, 4); for (int k = 0; k < 3; k++) h[i][k] = p3[i][k] * x; h[i][3] = x; } auto [q, ww] = ou::extract_weights(h); REQUIRE(q.size() == size_t(n) && ww.size() == size_t(n)); for (int i = 0; i < n; i++) { REQUIRE(ww[i] == h[i][3]); REQUIRE(dist(q[i], p3[i]) < 1e-14 * (1 + mag(p3[i]))); }
    s.nontrivial(n > 3); s.label("containers");
}
template <size_t N> static std::vector<std::array<double, N>> chain(Src &s, int n)
{ // points whose neighbours are apart
    std::vector<std::array<double, N>> p(n); auto r = s.bulk(); int kind = s.draw(3); for (int i = 0; i < n; i++) { for (auto &x : p[i]) x = r.range(-4, 4); if (kind == 1) p[i][0] = 3 * i + r.range(-1, 1); if (kind == 2) { for (auto &x : p[i]) x = std::round(x); } }
    for (int i = 1; i < n; i++) if (dist(p[i], p[i - 1]) < 0.05) p[i][0] += 0.7; return p;
}
template <size_t N> static std::array<double, N> tang(Src &s) { std::array<double, N> t; do { for (auto &x : t) x = s.sym(6); t[0] += 0.2; } while (mag(t) < 0.1); return t; }
template <size_t N, typename C> static void through(const C &c, const std::vector<std::array<double, N>> &p, const char *what)
{
    REQUIRE(!c.IsNull()); if (p.size() == 3 && c->NbKnots() == 2) { REQUIRE(dist(arr(c->StartPoint()), p[0]) + dist(arr(c->EndPoint()), p[2]) < 1e-9 * (1 + maxabs(p))); double d = 1e9; for (int k = 0; k <= 4000; k++) d = std::min(d, dist(p[1], arr(c->Value(c->FirstParameter() + (c->LastParameter() - c->FirstParameter()) * k / 4000.)))); REQUIRE_MSG(d < 5e-3 * (1 + maxabs(p)), what << ": the middle point is missed by " << d); return; } // a single parabola
    REQUIRE_MSG(c->NbKnots() == int(p.size()), what << ": " << c->NbKnots() << " knots for " << p.size() << " points"); for (size_t i = 0; i < p.size(); i++) { auto q = arr(c->Value(c->Knot(i + 1))); REQUIRE_MSG(dist(q, p[i]) < 1e-9 * (1 + maxabs(p)), what << ": point " << i << " is missed by " << dist(q, p[i])); }
}
template <size_t N, typename C> static void tangent(const C &c, double u, const std::array<double, N> &t, bool scale, const char *what)
{
    auto d = arr(c->DN(u, 1)); if (!scale) { REQUIRE_MSG(dist(d, t) < 1e-8 * (1 + mag(t)), what << ": tangent " << show(d) << " instead of " << show(t)); return; }
    if (mag(d) < 1e-12) return; /* the length given to a tangent comes from the neighbouring points and may vanish */ double dot = 0; for (size_t k = 0; k < N; k++) dot += d[k] * t[k]; REQUIRE_MSG(dot > 0 && std::abs(dot - mag(d) * mag(t)) < 1e-9 * (1 + mag(d)) * mag(t), what << ": tangent " << show(d) << " is not along " << show(t));
}
template <size_t N> static void interp(Src &s)
{
    int n = s.in(2, 12); auto p = chain<N>(s, n); bool sc = s.chance(1, 2); double tol = s.one_of({1e-6, 1e-7, 1e-9}); auto t1 = tang<N>(s), t2 = tang<N>(s); s << showp(p) << (sc ? " scaled " : " ") << show(t1) << show(t2);
    { auto c = ou::bscurve_c1(p, t1, t2, sc, tol); through(c, p, "end tangents"); tangent(c, c->FirstParameter(), t1, sc, "start"); tangent(c, c->LastParameter(), t2, sc, "end"); }
    { std::vector<std::array<double, N>> tg(n); int k = 0; std::ostringstream o; for (auto &t : tg) { t = {}; if (s.chance(1, 2)) { t = tang<N>(s); k++; } } for (auto &t : tg) s << show(t); auto c = ou::bscurve_c1(p, tg, sc, tol); through(c, p, "some tangents"); for (int i = 0; i < n; i++) if (mag(tg[i]) > 0) tangent(c, c->Knot(i + 1), tg[i], sc, "imposed"); s.label(k == 0 ? "free" : k == n ? "all imposed" : "some imposed"); }
    s.nontrivial(n > 2);
}
PBT_ARM(interpolate_2d, 500, 20000)
{
    interp<2>(s); int n = s.in(2, 10); auto p = chain<2>(s, n); { auto c = ou::bscurve_c1(p, 1e-9); through(c, p, "no tangent"); }
    std::vector<double> u(n); double x = s.sym(3); for (auto &y : u) { y = x; x += s.real(0.2, 2); } bool sc = s.chance(1, 2); auto t1 = tang<2>(s), t2 = tang<2>(s); auto c = ou::bscurve_c1(p, u, t1, t2, sc, 1e-9); through(c, p, "given parameters"); for (int i = 0; i < n; i++) REQUIRE(std::abs(c->Knot(i + 1) - u[i]) < 1e-12 * (1 + std::abs(u[i]))); tangent(c, u[0], t1, sc, "start"); tangent(c, u[n - 1], t2, sc, "end");
    // between two curves
    auto a = gcrv<2, false>(s, 2, 3, 3), b = gcrv<2, false>(s, 2, 3, 3); auto A = ou::BSplineCurve(a.make()), B = ou::BSplineCurve(b.make()); auto P = arr(A->EndPoint()), Q = arr(B->StartPoint()); auto T = arr(A->DN(a.K.hi(), 1)), R = arr(B->DN(b.K.lo(), 1)); if (dist(P, Q) < 0.1 || mag(T) < 0.1 || mag(R) < 0.1) return; auto J = ou::bscurve_c1(A, B, sc, 1e-7); REQUIRE(dist(arr(J->StartPoint()), P) < 1e-9 * (1 + mag(P)) && dist(arr(J->EndPoint()), Q) < 1e-9 * (1 + mag(Q))); tangent(J, J->FirstParameter(), T, sc, "start of the link"); tangent(J, J->LastParameter(), R, sc, "end of the link");
}
PBT_ARM(interpolate_3d, 500, 20000) { interp<3>(s); }
template <size_t N> static void smooth(Src &s)
{
    int n = s.in(3, 8); std::vector<std::array<double, N>> p(n), t(n); double a = s.real(0.2, 1), b = s.sym(1), f = s.real(0.3, 0.8); for (int i = 0; i < n; i++) { double x = 2. * i; p[i] = {}; p[i][0] = x; p[i][1] = std::sin(f * x) * a; if (N > 2) p[i][N - 1] = b * std::cos(f * x); t[i] = {}; } bool two = s.chance(1, 2); if (two) { for (int i : {0, n - 1}) { double x = 2. * i; t[i][0] = 1; t[i][1] = a * f * std::cos(f * x); if (N > 2) t[i][N - 1] = -b * f * std::sin(f * x); } } s << showp(p) << (two ? " tangents" : "");
    auto c = ou::bscurve_c2_approx(p, t, 1e-6); REQUIRE(!c.IsNull() && c->Degree() <= 8); REQUIRE(c->Continuity() >= GeomAbs_C2); REQUIRE(dist(arr(c->StartPoint()), p[0]) < 1e-5 && dist(arr(c->EndPoint()), p[n - 1]) < 1e-5);
    for (auto &x : p) { double best = 1e9; for (int k = 0; k <= 2000; k++) { double u = c->FirstParameter() + (c->LastParameter() - c->FirstParameter()) * k / 2000.; best = std::min(best, dist(arr(c->Value(u)), x)); } REQUIRE_MSG(best < 0.02, "passes at " << best << " of " << show(x)); }
    if (two) { tangent(c, c->FirstParameter(), t[0], true, "start"); tangent(c, c->LastParameter(), t[n - 1], true, "end"); } s.nontrivial(n > 3); s.label(two ? "tangents" : "points");
}
PBT_ARM(approximate_2d, 40, 1500) { smooth<2>(s); }
PBT_ARM(approximate_3d, 40, 1500) { smooth<3>(s); }
PBT_ARM(measures, 400, 15000)
{
    int n = s.in(3, 10); auto r = s.bulk(); double a = s.real(0, 3), b = s.sym(4); // convex polygon in a tilted plane
    gp_Ax3 ax(gp_Pnt(b, -b, 2), gp_Dir(std::sin(a), 0.3, std::cos(a))); std::vector<gp_Pnt> p(n); double ar = 0, len = 0; std::vector<std::array<double, 2>> q(n); for (int i = 0; i < n; i++) { double t = 6.283185307179586 * (i + 0.7 * r.range(0, 1)) / n, m = 3; q[i] = {m * std::cos(t), 2 * m * std::sin(t)}; gp_Vec v = gp_Vec(ax.XDirection()) * q[i][0] + gp_Vec(ax.YDirection()) * q[i][1]; p[i] = ax.Location().Translated(v); }
    std::list<Handle(Geom_Curve)> L; gp_XYZ cg(0, 0, 0); for (int i = 0; i < n; i++) { int j = (i + 1) % n; ar += (q[i][0] * q[j][1] - q[i][1] * q[j][0]) / 2; double d = p[i].Distance(p[j]); len += d; cg += (p[i].XYZ() + p[j].XYZ()) * (d / 2); Handle(Geom_Curve) l; if (s.chance(1, 2)) l = new Geom_TrimmedCurve(new Geom_Line(p[i], gp_Dir(gp_Vec(p[i], p[j]))), 0, d); else l = ou::BSplineCurve(std::vector<gp_Pnt>{p[i], p[j]}, {0., 1.}, {2, 2}, 1); L.push_back(l); } cg /= len;
    auto W = ou::to_wire(L); auto F = ou::to_face(L); s << n << " edges, area " << ar << " length " << len; REQUIRE(std::abs(ou::length(W) - len) < 1e-6 * len); REQUIRE_MSG(std::abs(std::abs(ou::area(F)) - std::abs(ar)) < 1e-6 * std::abs(ar), "area " << ou::area(F) << " instead of " << ar); auto g = ou::cg_lineical(W); REQUIRE_MSG(g.Distance(gp_Pnt(cg)) < 1e-6, "centre off by " << g.Distance(gp_Pnt(cg)));
    auto E = ou::explode<TopoDS_Edge>(W); REQUIRE(E.size() == size_t(n)); double t = 0; for (auto &e : E) t += ou::length(e); REQUIRE(std::abs(t - len) < 1e-6 * len); REQUIRE(ou::explode<TopoDS_Vertex>(F).size() == size_t(n) && ou::explode<TopoDS_Wire>(F).size() == 1 && ou::explode<TopoDS_Face>(F).size() == 1); bool th = false; try { ou::length(F); } catch (const Standard_Failure &) { th = true; } REQUIRE_MSG(th, "length of a face");
    // a closed box skin: six faces share twelve edges
    double dx = s.real(0.5, 3), dy = s.real(0.5, 3), dz = s.real(0.5, 3); auto P = [&](int i, int j, int k) { return gp_Pnt(b + i * dx, j * dy, k * dz); }; std::vector<TopoDS_Face> f; auto quad = [&](gp_Pnt A, gp_Pnt B, gp_Pnt C, gp_Pnt D) { std::vector<Handle(Geom_Curve)> l; gp_Pnt x[5] = {A, B, C, D, A}; for (int i = 0; i < 4; i++) l.push_back(ou::BSplineCurve(std::vector<gp_Pnt>{x[i], x[i + 1]}, {0., 1.}, {2, 2}, 1)); f.push_back(ou::to_face(l)); };
    quad(P(0, 0, 0), P(1, 0, 0), P(1, 1, 0), P(0, 1, 0)); quad(P(0, 0, 1), P(1, 0, 1), P(1, 1, 1), P(0, 1, 1)); quad(P(0, 0, 0), P(1, 0, 0), P(1, 0, 1), P(0, 0, 1)); quad(P(0, 1, 0), P(1, 1, 0), P(1, 1, 1), P(0, 1, 1)); quad(P(0, 0, 0), P(0, 1, 0), P(0, 1, 1), P(0, 0, 1)); quad(P(1, 0, 0), P(1, 1, 0), P(1, 1, 1), P(1, 0, 1)); int m = s.in(2, 6); auto SH = ou::to_shell(f.begin(), f.begin() + m, 1e-5); double w[3] = {dx * dy, dx * dz, dy * dz}, tot = 0; for (int i = 0; i < m; i++) tot += w[i / 2]; s << " faces " << m << " found " << ou::explode<TopoDS_Face>(SH).size(); REQUIRE_MSG(std::abs(ou::area(SH) - tot) < 1e-6 * tot, "area of the shell " << ou::area(SH) << " instead of " << tot); REQUIRE(ou::explode<TopoDS_Face>(SH).size() == size_t(m)); if (m == 6) REQUIRE_MSG(ou::explode<TopoDS_Edge>(SH).size() == 12 && ou::explode<TopoDS_Vertex>(SH).size() == 8 && ou::explode<TopoDS_Shell>(SH).size() == 1, "box with " << ou::explode<TopoDS_Edge>(SH).size() << " edges");
    s.nontrivial(); s.label("wire and box");
}
// a curve which moves on: no cusp
template <size_t N, bool rat> static Crv<N, rat> going(Src &s, int pmin, int pmax, int spans) { auto c = gcrv<N, rat>(s, pmin, pmax, spans); auto r = s.bulk(); for (size_t i = 0; i < c.P.size(); i++) { double w = rat ? r.range(0.7, 1.4) : 1; c.P[i][0] = (2. * i + r.range(-0.6, 0.6)) * w; for (size_t k = 1; k < N; k++) c.P[i][k] = r.range(-2, 2) * w; if constexpr (rat) c.P[i][N] = w; } return c; }
PBT_ARM(curve_length, 300, 12000)
{
    auto c = going<3, false>(s, 2, 4, 3); auto d = going<2, true>(s, 2, 3, 2); auto O = ou::BSplineCurve(c.make()); auto O2 = ou::NURBSplineCurve(d.make()); s << "p=" << c.K.p << showp(c.P); auto poly = [](auto &k) { double L = 0; int n = 400; for (size_t i = 0; i + 1 < k.K.brk.size(); i++) { auto a = k.val(k.K.brk[i]); for (int j = 1; j <= n; j++) { auto b = k.val(k.K.brk[i] + (k.K.brk[i + 1] - k.K.brk[i]) * j / n); L += dist(a, b); a = b; } } return L; }; double L = poly(c), L2 = poly(d); double l = ou::length(GeomAdaptor_Curve(O)), l2 = ou::length(Geom2dAdaptor_Curve(O2)); REQUIRE_MSG(std::abs(l - L) < 5e-3 * L, "length " << l << " instead of " << L); REQUIRE_MSG(std::abs(l2 - L2) < 5e-3 * L2, "length " << l2 << " instead of " << L2); if (mag(c.P.front()) >= 0 && dist(c.P.front(), c.P.back()) > 0.01) { auto e = ou::to_edge(Handle(Geom_Curve)(O)); REQUIRE(std::abs(ou::length(e) - l) < 1e-6 * (1 + l)); auto e2 = ou::to_edge(Handle(Geom2d_Curve)(O2)); if (!e2.IsNull()) REQUIRE(std::abs(ou::length(e2) - l2) < 1e-6 * (1 + l2)); } s.nontrivial(c.K.brk.size() > 2); s.label("length");
}
PBT_ARM(nearest, 300, 12000)
{
    auto c = going<3, false>(s, 2, 3, 3); for (size_t k = 1; k + 1 < c.K.mult.size(); k++) DISCARD_IF(c.K.mult[k] + 1 > c.K.p); // a kink is no perpendicular projection
    auto O = ou::BSplineCurve(c.make()); GeomAdaptor_Curve C(O); std::array<double, 3> x{s.sym(8), s.sym(8), s.sym(8)}; int how = s.draw(3); if (how) x = c.val(inner_param(s, c.K)); if (how == 2) x[2] += s.sym(0.5); gp_Pnt p = ou::point(x); s << "p=" << c.K.p << " knots " << show(c.K.flat) << showp(c.P) << " point " << show(x);
    double best = 1e300; for (size_t i = 0; i + 1 < c.K.brk.size(); i++) for (int j = 0; j <= 200; j++) best = std::min(best, dist(x, c.val(c.K.brk[i] + (c.K.brk[i + 1] - c.K.brk[i]) * j / 200.))); auto all = ou::etrema_PC(p, C, 1e-9); for (auto &e : all) { REQUIRE(arr(e.first) == x); near<3>(arr(e.second.Value()), c.val(e.second.Parameter()), 1e-9 * c.scale(), "extremum off the curve", e.second.Parameter()); }
    auto r = ou::nearest_PC(p, C, 1e-9); near<3>(arr(r.second.Value()), c.val(r.second.Parameter()), 1e-9 * c.scale(), "nearest point off the curve", r.second.Parameter()); double d = p.Distance(r.second.Value()); REQUIRE_MSG(d <= best * 1.02 + 1e-6 * c.scale(), "nearest point at " << d << " of the point, the curve passes at " << best); for (auto &e : all) REQUIRE(d <= p.Distance(e.second.Value()) + 1e-12); s.nontrivial(c.K.brk.size() > 2); s.label(all.empty() ? "no perpendicular" : how ? "close" : "anywhere");
}
PBT_ARM(curve_and_surface, 150, 6000)
{
    // line and plane, curve and plane: the crossing is known
    double a = s.real(-0.6, 0.6), b = s.real(-0.6, 0.6), h = s.sym(3); gp_Pnt o(s.sym(4), s.sym(4), h); gp_Dir nrm(std::sin(a), std::sin(b), 1); Handle(Geom_Plane) P = new Geom_Plane(o, nrm); gp_Pnt q(s.sym(4), s.sym(4), s.sym(4)); gp_Dir dir(s.sym(0.5), s.sym(0.5), 1); Handle(Geom_Line) l = new Geom_Line(q, dir); s << "plane at " << show(arr(o)) << " line from " << show(arr(q)); double t = gp_Vec(q, o).Dot(gp_Vec(nrm)) / dir.Dot(nrm); auto r = ou::nearest_CS(GeomAdaptor_Curve(l), GeomAdaptor_Surface(P)); gp_Pnt X = l->Value(t); REQUIRE_MSG(r.first.Value().Distance(X) < 1e-6 && r.second.Value().Distance(X) < 1e-6, "crossing at " << r.first.Value().Distance(X) << " of the right place"); REQUIRE(std::abs(r.first.Parameter() - t) < 1e-6);
    // line and B-Spline surface z = f: through one of its points
    Srf<false> S = gsrf<false>(s, 2, 3, true, 1); auto O = ou::BSplineSurface(S.make()); double u = s.real(0.2, 0.8), v = s.real(0.2, 0.8); gp_Pnt Y = O->Value(u, v); Handle(Geom_TrimmedCurve) m = new Geom_TrimmedCurve(new Geom_Line(Y, gp::DZ()), -6., 7.); auto z = ou::nearest_CS(GeomAdaptor_Curve(m), GeomAdaptor_Surface(O), 1e-7); double uu, vv; z.second.Parameter(uu, vv); near<3>(arr(z.second.Value()), S.val(uu, vv), 1e-8 * S.scale(), "off the surface", uu); near<3>(arr(z.first.Value()), arr(m->Value(z.first.Parameter())), 1e-9 * S.scale(), "off the line", 0); REQUIRE_MSG(z.first.Value().Distance(z.second.Value()) < 1e-4, "nearest points at " << z.first.Value().Distance(z.second.Value()) << " though the line crosses the surface"); s.nontrivial(); s.label("crossing");
}
struct Poly : ou::MultipleVarFunctionWithHessian
{
    int n; std::vector<double> A, B; double C; Poly(double e, int n, Src &s) : ou::MultipleVarFunctionWithHessian(e), n{n}, A(n * n), B(n), C{s.sym(2)} { auto r = s.bulk(); for (auto &x : A) x = r.range(-2, 2); for (auto &x : B) x = r.range(-2, 2); }
    Standard_Integer NbVariables() const override { return n; }
    Standard_Boolean Value(const math_Vector &X, Standard_Real &F) override { F = C; for (int i = 0; i < n; i++) { F += B[i] * X(i + 1); for (int j = 0; j < n; j++) F += A[i * n + j] * X(i + 1) * X(j + 1); F += std::pow(X(i + 1), 3) * B[i] / 3; } return true; }
};
PBT_ARM(finite_differences, 1000, 40000)
{
    int n = s.in(1, 6); double e = s.one_of({1e-2, 1e-3, 1e-4}); Poly f(e, n, s); math_Vector X(1, n), G(1, n); math_Matrix H(1, n, 1, n); for (int i = 1; i <= n; i++) X(i) = s.sym(2); double F = 0, W; s << "n=" << n << " step " << e; REQUIRE(f.eps() == e); REQUIRE(f.Values(X, F, G, H)); f.Value(X, W); REQUIRE(F == W); double tol = 1e-11 / e + e * e * 5;
    for (int i = 0; i < n; i++) { double g = f.B[i] + f.B[i] * X(i + 1) * X(i + 1); for (int j = 0; j < n; j++) g += (f.A[i * n + j] + f.A[j * n + i]) * X(j + 1); REQUIRE_MSG(std::abs(G(i + 1) - g) < tol, "gradient " << i << ": " << G(i + 1) << " instead of " << g); for (int j = 0; j < n; j++) { double h = f.A[i * n + j] + f.A[j * n + i] + (i == j ? 2 * f.B[i] * X(i + 1) : 0); REQUIRE_MSG(std::abs(H(i + 1, j + 1) - h) < tol / e * 4 + 10 * e * e, "second derivative " << i << "," << j << ": " << H(i + 1, j + 1) << " instead of " << h); } } f.setEps(e * 2); REQUIRE(f.eps() == e * 2); s.nontrivial(n > 1); s.label("n=" + std::to_string(n));
}
PBT_ARM(lofts, 150, 5000)
{
    int n = s.in(2, 5), kind = s.draw(3); std::list<Handle(Geom_Curve)> L; std::vector<std::function<gp_Pnt(double)>> at; double w = s.real(1, 3); std::ostringstream o; for (int i = 0; i < n; i++) { double z = 2. * i + s.sym(0.4); if (kind == 0 || (kind == 2 && i % 2)) { auto c = gcrv<3, false>(s, 2, 3, 2); for (auto &p : c.P) p[2] = z; auto b = ou::BSplineCurve(c.make()); L.push_back(b); } else { Handle(Geom_Curve) c = new Geom_TrimmedCurve(new Geom_Line(gp_Pnt(s.sym(2), s.sym(2), z), gp_Dir(1, s.sym(0.5), 0)), 0., w + i); L.push_back(c); } } s << n << " sections, kind " << kind;
    auto same = [&](const Handle(Geom_Surface) &S, const std::list<Handle(Geom_Curve)> &l) { REQUIRE(!S.IsNull()); double u1, u2, v1, v2; S->Bounds(u1, u2, v1, v2); auto bs = Handle(Geom_BSplineSurface)::DownCast(S); REQUIRE(!bs.IsNull()); int i = 0, m = int(l.size()); for (auto &c : l) { // the section is one of the iso curves
            auto miss = [&](double v) { double e = 0; for (int j = 0; j <= 10; j++) { double t = j / 10.; e = std::max(e, S->Value(u1 + t * (u2 - u1), v).Distance(c->Value(c->FirstParameter() + t * (c->LastParameter() - c->FirstParameter())))); } return e; }; double h = (v2 - v1) / 200, bv = v1, best = 1e9; for (int k = 0; k <= 200; k++) if (double e = miss(v1 + h * k); e < best) { best = e; bv = v1 + h * k; } double x = std::max(v1, bv - h), y = std::min(v2, bv + h); for (int k = 0; k < 60; k++) { double p = x + (y - x) / 3, q = y - (y - x) / 3; if (miss(p) < miss(q)) y = q; else x = p; } best = std::min(best, miss((x + y) / 2)); REQUIRE_MSG(best < 1e-6, "section " << i << " of " << m << " is missed by " << best); i++; } };
    same(ou::loft_occ(L), L); same(ou::loft_occ(std::vector<Handle(Geom_Curve)>(L.begin(), L.end())), L); auto bl = ou::to_bs_list(L); REQUIRE(bl.size() == L.size()); auto it = L.begin(); for (auto &b : bl) { auto B = Handle(Geom_BSplineCurve)::DownCast(b); REQUIRE(!B.IsNull()); for (int j = 0; j <= 10; j++) { double t = j / 10.; REQUIRE(B->Value(B->FirstParameter() + t * (B->LastParameter() - B->FirstParameter())).Distance((*it)->Value((*it)->FirstParameter() + t * ((*it)->LastParameter() - (*it)->FirstParameter()))) < 1e-9); } ++it; }
    std::vector<std::list<Handle(Geom_Curve)>> vl; for (auto &c : L) vl.push_back({c, Handle(Geom_Curve)::DownCast(c->Translated(gp_Vec(0, 20, 0)))}); auto two = ou::loft_occ(vl); REQUIRE(two.size() == 2); same(two.front(), L); { std::list<Handle(Geom_Curve)> l2; for (auto &x : vl) l2.push_back(x.back()); same(two.back(), l2); } vl.back().pop_back(); bool th = false; try { ou::loft_occ(vl); } catch (const std::length_error &) { th = true; } REQUIRE_MSG(th, "lists of different lengths accepted"); s.nontrivial(n > 2); s.label(kind == 0 ? "curves" : kind == 1 ? "lines" : "mixed");
}
PBT_ARM(half_planes, 600, 20000)
{
    gp_Ax3 ax(gp_Pnt(s.sym(4), s.sym(4), s.sym(4)), gp_Dir(s.sym(1), s.sym(1), 1), gp_Dir(1, s.sym(0.5), s.sym(0.5))); bool pos = s.chance(1, 2), hand = s.chance(1, 2); if (!hand) ax.YReverse(); bool along = s.chance(1, 2); s << (pos ? "positive" : "negative") << (along ? " X" : " Y"); auto S = along ? ou::half_planeX(ax, pos) : ou::half_planeY(ax, pos); double u1, u2, v1, v2; S->Bounds(u1, u2, v1, v2); double far = 0, up = 0, down = 0; for (int t = 0; t < 12; t++) { double u = std::max(u1, -5.) + (std::min(u2, 5.) - std::max(u1, -5.)) * (t < 4 ? t % 2 : s.unit()), v = std::max(v1, -5.) + (std::min(v2, 5.) - std::max(v1, -5.)) * (t < 4 ? t / 2 : s.unit()); auto p = S->Value(u, v); gp_Vec w(ax.Location(), p); double x = w.Dot(gp_Vec(along ? ax.XDirection() : ax.YDirection())), y = w.Dot(gp_Vec(along ? ax.YDirection() : ax.XDirection())), z = w.Dot(gp_Vec(ax.Direction())); REQUIRE_MSG((pos ? x >= -1e-9 : x <= 1e-9) && std::abs(y) < 1e-9, "half plane has a point at " << x << "," << y << "," << z); far = std::max(far, std::abs(x)); up = std::max(up, z); down = std::min(down, z); } REQUIRE_MSG(far > 4.9 && up > 4.9 && down < -4.9, "part of the half plane is missing"); s.nontrivial(); s.label(pos ? "positive" : "negative");
}
PBT_ARM(chains, 40, 1500)
{
    int n = s.in(2, 4); std::list<Handle(Geom_Curve)> L; double x = 0, y = 0, dx = 1, dy = s.sym(1); for (int i = 0; i < n; i++) { double len = s.real(0.7, 2); double cx = x + dx * len, cy = y + dy * len, nx = s.real(0.5, 1), ny = s.sym(1); auto b = ou::BSplineCurve(std::vector<gp_Pnt>{{x, y, 0}, {cx, cy, 0.1}, {cx + nx * len, cy + ny * len, 0.2 * 0}}, {0., 1.}, {3, 3}, 2); L.push_back(b); x = cx + nx * len; y = cy + ny * len; dx = nx; dy = ny; } double tol = 1e-3; s << n << " arcs"; auto c = ou::bs_from_list(L, tol); REQUIRE(!c.IsNull()); REQUIRE_MSG(c->StartPoint().Distance(L.front()->Value(0)) < tol && c->EndPoint().Distance(gp_Pnt(x, y, 0)) < tol, "ends"); GeomAdaptor_Curve C(c);
    for (auto &b : L) for (int j = 0; j <= 8; j++) { gp_Pnt p = b->Value(j / 8.); double d = 1e9; for (int k = 0; k <= 3000; k++) d = std::min(d, p.Distance(c->Value(c->FirstParameter() + (c->LastParameter() - c->FirstParameter()) * k / 3000.))); REQUIRE_MSG(d < 5 * tol, "passes at " << d << " of the arcs"); } s.nontrivial(); s.label("chain");
}
PBT_ARM(iges, 30, 1000)
{
    char dir[] = "/tmp/p23_XXXXXX"; REQUIRE(mkdtemp(dir)); std::string f = std::string(dir) + "/out.igs"; struct Rm { std::string f, d; ~Rm() { unlink(f.c_str()); rmdir(d.c_str()); } } rm{f, dir};
    int n = s.in(1, 4); double sc = s.one_of({1000., 1., 10.}); std::vector<Handle(Geom_Curve)> L; std::vector<Crv<3, false>> c; for (int i = 0; i < n; i++) { c.push_back(going<3, false>(s, 2, 3, 3)); for (size_t k = 1; k + 1 < c[i].K.mult.size(); k++) DISCARD_IF(c[i].K.mult[k] + 1 > c[i].K.p); // readers cut curves with kinks
        L.push_back(ou::BSplineCurve(c.back().make())); } s << n << " curves, scale " << sc; fflush(stdout); int fd = dup(1), nul = open("/dev/null", 1); dup2(nul, 1); if (sc == 1000.) ou::to_iges(L, f.c_str()); else ou::to_iges(L, f.c_str(), sc); IGESControl_Reader R; auto st = R.ReadFile(f.c_str()); R.TransferRoots(); auto sh = R.OneShape(); std::cout << std::flush; fflush(stdout); dup2(fd, 1); close(fd); close(nul); REQUIRE(st == IFSelect_RetDone); auto E = ou::explode<TopoDS_Edge>(sh); REQUIRE_MSG(E.size() == size_t(n), E.size() << " edges read back of " << n); int i = 0; for (auto &e : E) { BRepAdaptor_Curve a(e); auto &k = c[i++]; for (int j = 0; j <= 10; j++) { double t = j / 10.; auto p = a.Value(a.FirstParameter() + t * (a.LastParameter() - a.FirstParameter())); auto q = k.val(k.K.lo() + t * (k.K.hi() - k.K.lo())); for (int m = 0; m < 3; m++) REQUIRE_MSG(std::abs(arr(p)[m] - sc * q[m]) < 1e-6 * sc * k.scale(), "curve " << i << " read back at " << arr(p)[m] << " instead of " << sc * q[m]); } REQUIRE(mag(k.P[0]) >= 0 && arr(L[i - 1]->Value(k.K.lo())) == arr(L[i - 1]->Value(k.K.lo()))); } s.nontrivial(n > 1); s.label("written and read");
}
// the same curve from its parts: points of either kind, poles and weights apart or together
PBT_ARM(parts, 300, 12000)
{
    auto a = gcrv<2, false>(s, 1, 5, 4); auto b = gcrv<3, false>(s, 1, 5, 4); auto c = gcrv<2, true>(s, 1, 5, 4); auto d = gcrv<3, true>(s, 1, 5, 4); auto mu = [](auto &k) { return std::vector<int>(k.K.mult.begin(), k.K.mult.end()); }; s << "p=" << a.K.p << showp(a.P) << " p=" << d.K.p << showp(d.P);
    auto is = [&](const auto &o, const auto &k, const char *w) { REQUIRE(!o.IsNull()); REQUIRE_MSG(o->Degree() == int(k.K.p) && o->NbPoles() == int(k.P.size()), w); for (int t = 0; t < 5; t++) { double u = t == 0 ? k.K.lo() : t == 1 ? k.K.hi() : inner_param(s, k.K); auto q = arr(o->Value(u)); auto v = k.val(u); for (size_t i = 0; i < q.size(); i++) REQUIRE_MSG(std::abs(q[i] - v[i]) <= 1e-11 * k.scale(), w << ": " << q[i] << " instead of " << v[i] << " at " << u); } };
    auto p2 = [](const auto &P) { std::vector<gp_Pnt2d> r; for (auto &x : P) r.push_back(gp_Pnt2d(x[0], x[1])); return r; }; auto p3 = [](const auto &P) { std::vector<gp_Pnt> r; for (auto &x : P) r.push_back(gp_Pnt(x[0], x[1], x[2])); return r; };
    is(ou::BSplineCurve(p2(a.P), a.K.brk, mu(a), int(a.K.p)), a, "points in the plane"); is(ou::BSplineCurve(p3(b.P), b.K.brk, mu(b), int(b.K.p)), b, "points in space"); is(ou::BSplineCurve(a.P, a.K.brk, mu(a), int(a.K.p)), a, "coordinates in the plane"); is(ou::BSplineCurve(b.P, b.K.brk, mu(b), int(b.K.p)), b, "coordinates in space");
    std::vector<std::array<double, 2>> c2; std::vector<double> cw; for (auto &x : c.P) { cw.push_back(x[2]); c2.push_back({x[0] / x[2], x[1] / x[2]}); } is(ou::BSplineCurve(c2, cw, c.K.brk, mu(c), int(c.K.p)), c, "weights in the plane"); std::vector<std::array<double, 3>> d3; std::vector<double> dw; for (auto &x : d.P) { dw.push_back(x[3]); d3.push_back({x[0] / x[3], x[1] / x[3], x[2] / x[3]}); } is(ou::BSplineCurve(d3, dw, d.K.brk, mu(d), int(d.K.p)), d, "weights in space"); is(ou::BSplineCurve(d.P, d.K.brk, mu(d), int(d.K.p)), d, "homogeneous poles");
    s.nontrivial(a.K.p > 1 && d.K.p > 1); s.label("parts");
}
// plane curves and shapes written and read back
PBT_ARM(iges_shapes, 30, 1000)
{
    char dir[] = "/tmp/p23_XXXXXX"; REQUIRE(mkdtemp(dir)); std::string f = std::string(dir) + "/out.igs"; struct Rm { std::string f, d; ~Rm() { unlink(f.c_str()); rmdir(d.c_str()); } } rm{f, dir}; bool flat = s.chance(1, 2); double sc = s.one_of({1000., 1., 10.}); auto c = going<2, false>(s, 2, 3, 3); for (size_t k = 1; k + 1 < c.K.mult.size(); k++) DISCARD_IF(c.K.mult[k] + 1 > c.K.p); s << (flat ? "plane curve" : "shape") << " scale " << sc << showp(c.P); Handle(Geom2d_Curve) C = ou::BSplineCurve(c.make());
    fflush(stdout); int fd = dup(1), nul = open("/dev/null", 1); dup2(nul, 1); if (flat) ou::to_iges(std::array<Handle(Geom2d_Curve), 1>{C}, f.c_str(), sc); else ou::to_iges(std::vector<TopoDS_Shape>{ou::to_edge(C)}, f.c_str(), sc); IGESControl_Reader R; auto st = R.ReadFile(f.c_str()); R.TransferRoots(); auto sh = R.OneShape(); std::cout << std::flush; fflush(stdout); dup2(fd, 1); close(fd); close(nul); REQUIRE(st == IFSelect_RetDone); auto E = ou::explode<TopoDS_Edge>(sh); REQUIRE_MSG(E.size() == 1, E.size() << " edges read back"); BRepAdaptor_Curve a(*E.begin()); for (int j = 0; j <= 10; j++) { double t = j / 10.; auto p = a.Value(a.FirstParameter() + t * (a.LastParameter() - a.FirstParameter())); auto q = c.val(c.K.lo() + t * (c.K.hi() - c.K.lo())); for (int m = 0; m < 3; m++) REQUIRE_MSG(std::abs(arr(p)[m] - (m < 2 ? sc * q[m] : 0)) < 1e-6 * sc * c.scale(), "read back at " << arr(p)[m] << " instead of " << (m < 2 ? sc * q[m] : 0)); } s.nontrivial(); s.label(flat ? "curve" : "shape");
}
