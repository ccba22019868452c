// The Python bindings: python/*.cpp are compiled and loaded in an embedded interpreter, every
// call from Python is compared with the C++ library called with the same arguments.
#include "shapes.h"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <pybind11/numpy.h>
#include <pybind11/functional.h>
#include <gbs/bscinterp.h>
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/extrema.h>
#include <gbs/transform.h>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/smoothing.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>
namespace py = pybind11;
using namespace py::literals;
const char *pbt_property = "P25";
const char *pbt_rule = "random shapes built from Python, evaluated, edited, copied, pickled and passed to the functions of the module; oracle: the C++ library called with the same arguments, and a quad precision model; non-trivial: weights, several spans, both directions different";
extern "C" PyObject *PyInit_gbs();
static py::module_ &G()
{
    static py::module_ *m = [] { PyImport_AppendInittab("gbs", PyInit_gbs); py::initialize_interpreter(false); auto p = py::module_::import("sys").attr("path"); for (auto d : {"/opt/veriftools/pyvenv/lib/python3.12/site-packages"}) p.attr("append")(d); py::module_::import("warnings").attr("simplefilter")("ignore"); return new py::module_(py::module_::import("gbs")); }();
    return *m;
}
static py::object A(const std::string &f) { return G().attr(f.c_str()); }
static std::string sfx(size_t n) { return std::to_string(n) + "d"; }
// a Python function inside a curve is called from the threads of the parallel algorithms, which wait for the thread that waits for them
PBT_PROBE(python_offset_in_parallel)
{
    auto c = A("BSCurve2d")(std::vector<std::array<double, 2>>{{0., 0.}, {.5, .2}, {1., 0.}}, std::vector<double>{0, 0, 0, 1, 1, 1}, size_t(2));
    auto f = py::eval("lambda u, d=0: 0.1 if d == 0 else 0.0"); auto o = A("CurveOffset2d_func")(c, f); alarm(25);
    for (int i = 0; i < 200; i++) { A("extrema_curve_point")(o, std::array<double, 2>{0.3, 1.}, 1e-6); A("abs_curv")(o, 20); }
    alarm(0); what = "a parallel algorithm on a curve offset by a Python function returned"; return false;
}
// comparison of what Python got with what C++ gives
static void same(double a, double b, double m, const std::string &w) { if (a == b || (std::isnan(a) && std::isnan(b))) return; REQUIRE_MSG(std::abs(a - b) <= 1e-11 * (1 + m + std::abs(b)), w << ": " << a << " from Python, " << b << " from C++"); }
static void same(size_t a, size_t b, double, const std::string &w) { REQUIRE_MSG(a == b, w << ": " << a << " from Python, " << b << " from C++"); }
template <size_t N> static void same(const std::array<double, N> &a, const std::array<double, N> &b, double m, const std::string &w) { for (size_t i = 0; i < N; i++) same(a[i], b[i], m, w); }
template <size_t N> static void same(const std::array<size_t, N> &a, const std::array<size_t, N> &b, double m, const std::string &w) { for (size_t i = 0; i < N; i++) same(a[i], b[i], m, w); }
template <typename X> static void same(const std::vector<X> &a, const std::vector<X> &b, double m, const std::string &w) { REQUIRE_MSG(a.size() == b.size(), w << ": " << a.size() << " entries from Python, " << b.size() << " from C++"); for (size_t i = 0; i < a.size(); i++) same(a[i], b[i], m, w + "[" + std::to_string(i) + "]"); }
template <typename C> concept IsC = requires(const C &c) { c.knotsFlats(); c.degree(); };
template <typename C> concept IsS = requires(const C &c) { c.knotsFlatsU(); c.degreeU(); };
static std::vector<double> flat(const auto &v) { std::vector<double> r; for (auto &x : v) for (auto c : x) r.push_back(c); return r; }
template <IsC C> static void same(const C &a, const C &b, double m, const std::string &w) { same(a.degree(), b.degree(), 0, w + " degree"); same(a.knotsFlats(), b.knotsFlats(), m, w + " knots"); same(flat(a.poles()), flat(b.poles()), m, w + " poles"); }
template <IsS C> static void same(const C &a, const C &b, double m, const std::string &w) { same(a.degreeU(), b.degreeU(), 0, w + " degree"); same(a.degreeV(), b.degreeV(), 0, w + " degree"); same(a.knotsFlatsU(), b.knotsFlatsU(), m, w + " knots"); same(a.knotsFlatsV(), b.knotsFlatsV(), m, w + " knots"); same(flat(a.poles()), flat(b.poles()), m, w + " poles"); }
template <typename X> static void eq(const py::object &o, const X &x, double m, const std::string &w) { X y = [&] { try { return o.template cast<X>(); } catch (py::cast_error &e) { pbt::fail(w + ": Python got " + py::repr(o).template cast<std::string>().substr(0, 200)); throw; } }(); same(y, x, m, w); }
// both do it, or both refuse
template <typename P, typename F> static bool both(P &&p, F &&f, const std::string &w)
{
    bool a = true, b = true; std::string why; try { p(); } catch (py::error_already_set &e) { a = false; why = e.what(); } try { f(); } catch (std::exception &e) { b = false; if (a) why = e.what(); } REQUIRE_MSG(a == b, w << (a ? " accepted by Python only: " : " refused by Python only: ") << why); return a;
}
template <typename C> static py::object wrap(const C &c) { G(); return py::cast(std::make_shared<C>(c)); }
static py::object mod(const char *n) { return py::module_::import(n); }
template <size_t N> static void evals(const py::object &o, const gbs::Curve<double, N> &c, Src &s, double m, const std::string &w, int dmax = 2, bool lists = true)
{
    auto [a, b] = c.bounds(); eq(o.attr("bounds")(), std::array<double, 2>{a, b}, std::abs(a) + std::abs(b), w + " bounds"); if (b - a > 1e6 || !(b > a)) { a = std::max(a, -5.), b = std::min(b, 5.); }
    size_t n = s.in(1, 6); auto r = s.bulk(); std::vector<double> U; for (size_t i = 0; i < n; i++) U.push_back(r.range(a, b)); U.front() = a; if (n > 1) U.back() = b; for (int d = 0; d <= dmax; d++) { double M = m; for (auto u : U) for (auto x : c(u, d)) M = std::max(M, std::abs(x)); std::vector<std::array<double, N>> V; for (auto u : U) { auto v = c(u, d); V.push_back(v); eq(o(u, d), v, M, w + " at " + std::to_string(u) + " derivative " + std::to_string(d)); eq(o.attr("value")(u, "d"_a = d), v, M, w + " value"); if (!d) eq(o(u), v, M, w + " value without derivative"); } if (!lists) { for (size_t i = 0; i < n; i++) eq(o(U[i], "d"_a = d), V[i], M, w); continue; } auto l = o(U, d), l2 = o.attr("value")(py::cast(U), d); if (d == 0) eq(o("u_lst"_a = U), V, M, w + " values, default derivative"); REQUIRE_MSG(l.attr("shape").template cast<std::vector<size_t>>() == std::vector<size_t>({n, N}), w << " values: shape " << py::repr(l.attr("shape")).cast<std::string>()); eq(l, V, M, w + " values"); eq(l2, V, M, w + " values"); eq(o.attr("begin")(d), c.begin(d), M * 4, w + " begin"); eq(o.attr("end")(d), c.end(d), M * 4, w + " end"); }
    if (a == c.bounds()[0] && b == c.bounds()[1]) eq(o.attr("midPosition")(), c.midPosition(), 1 + std::abs(a), w + " midPosition"); if (dmax > 1) { bool ok = true; for (auto u : U) { auto t = c(u, 1); double q = 0; for (auto x : t) q += x * x; if (q < 1e-4) ok = false; } if (ok) { std::vector<std::array<double, N>> D, D2; double M = 0, M2 = 0; for (auto u : U) { D.push_back(c.d_dm(u)); D2.push_back(c.d_dm2(u)); for (auto x : D.back()) M = std::max(M, std::abs(x)); for (auto x : D2.back()) M2 = std::max(M2, std::abs(x)); eq(o.attr("d_dm")(u), D.back(), M, w + " d_dm"); eq(o.attr("d_dm2")(u), D2.back(), M2, w + " d_dm2"); } eq(o.attr("d_dm")(U), D, M, w + " d_dm list"); eq(o.attr("d_dm2")(U), D2, M2, w + " d_dm2 list"); } }
}
static py::object pickled(const py::object &o) { auto p = mod("pickle"); return p.attr("loads")(p.attr("dumps")(o)); }
static py::object copied(const py::object &o) { return mod("copy").attr("copy")(o); }
template <size_t N, bool rat> static void bscurve(Src &s)
{
    auto k = gcrv<N, rat>(s, 1, 4, 4); using C = typename Crv<N, rat>::C; auto c = k.make(); double m = k.scale(); s << "p=" << k.K.p << " knots " << show(k.K.flat) << showp(k.P); auto cls = A("BSCurve" + std::string(rat ? "Rational" : "") + sfx(N)); std::vector<py::object> O{cls(k.P, k.K.flat, k.K.p), cls("poles"_a = k.P, "knots"_a = c.knots(), "mults"_a = c.mults(), "degree"_a = k.K.p), cls(cls(k.P, k.K.flat, k.K.p)), wrap(c)};
    if constexpr (rat) { std::vector<std::array<double, N>> pp = c.polesProjected(); auto w = c.weights(); C c2(pp, k.K.flat, w, k.K.p); auto o = cls(pp, k.K.flat, w, k.K.p); eq(o, c2, m, "poles and weights"); o = cls("poles"_a = pp, "knots"_a = c.knots(), "mults"_a = c.mults(), "weights"_a = w, "degree"_a = k.K.p); eq(o, c2, m, "poles and weights, multiplicities"); eq(O[0].attr("weights")(), w, 0, "weights"); eq(O[0].attr("polesProjected")(), pp, m, "poles projected"); }
    O.push_back(copied(O[0])); O.push_back(pickled(O[0])); for (auto &o : O) { REQUIRE(py::isinstance(o, cls)); eq(o, c, m, "curve"); eq(o.attr("degree")(), k.K.p, 0, "degree"); eq(o.attr("knotsFlats")(), k.K.flat, 0, "flat knots"); eq(o.attr("knots")(), c.knots(), 0, "knots"); eq(o.attr("mults")(), c.mults(), 0, "multiplicities"); eq(o.attr("poles")(), k.P, m, "poles"); }
    auto o = O[s.in(0, int(O.size()) - 1)]; size_t i = s.in(0, int(k.P.size()) - 1); eq(o.attr("pole")(i), k.P[i], m, "pole"); evals<N>(o, c, s, m, "curve"); double u = s.real(k.K.lo(), k.K.hi()); eq(o(u), k.val(u), 100 * m, "model");
    // the text is that of the library
    auto js = mod("json").attr("loads")(py::repr(o)); eq(js["degree"], k.K.p, 0, "degree in the text");
    // edits, the copies keep out of it
    auto keep = O[(i + 1) % O.size()]; if (keep.is(o)) keep = copied(o); int op = s.in(0, 9); auto d = c; double a = k.K.lo(), L = k.K.hi() - a; double v = a + L * s.real(0.1, 0.9), v1 = a + L * s.real(0.05, 0.4), v2 = a + L * s.real(0.6, 0.95); static const char *names[] = {"insertKnot", "reverse", "reversed", "trim", "trim soft", "changeBounds", "changeBounds array", "increaseDegree", "copyPoles", "removeKnot"}; std::string w = names[op]; s << " " << w; bool far = true; for (auto x : k.K.brk) for (auto y : {v, v1, v2}) if (std::abs(x - y) < 1e-4 * L) far = false; DISCARD_IF(!far);
    switch (op) { case 0: { size_t q = s.in(1, k.K.p); if (q == 1 && s.chance(1, 2)) both([&] { o.attr("insertKnot")(v); }, [&] { d.insertKnot(v); }, w); else both([&] { o.attr("insertKnot")("u"_a = v, "m"_a = q); }, [&] { d.insertKnot(v, q); }, w); break; } case 1: o.attr("reverse")(); d.reverse(); break; case 2: { auto rv = o.attr("reversed")(); auto cr = c.reversed(); eq(rv, cr, m, w); break; } case 3: o.attr("trim")(v1, v2); d.trim(v1, v2, true); break; case 4: o.attr("trim")("u1"_a = v1, "u2"_a = v2, "permanently"_a = false); d.trim(v1, v2, false); break; case 5: o.attr("changeBounds")(v1, v2 + 1); d.changeBounds(v1, v2 + 1); break; case 6: { std::array<double, 2> B{v1 - 1, v2}; o.attr("changeBounds")(B); d.changeBounds(B); break; } case 7: { size_t st = s.in(1, 2); if (st == 1) o.attr("increaseDegree")(); else o.attr("increaseDegree")(st); d.increaseDegree(st); break; } case 8: { auto P = k.P; for (auto &x : P) x[0] = -x[0]; o.attr("copyPoles")(P); d.copyPoles(P); break; } case 9: o.attr("insertKnot")(v); d.insertKnot(v); o.attr("removeKnot")(v, "tol"_a = 1e-6); d.removeKnot(v, 1e-6); break; }
    eq(o, d, 10 * m, w); eq(o.attr("bounds")(), d.bounds(), 10, w + " bounds"); eq(keep, c, m, "another object after " + w); { auto q = o(d.midPosition()); eq(q, d(d.midPosition()), 10 * m, w); } s.nontrivial(k.K.brk.size() > 2 && (rat || k.K.p > 1)); s.label(w);
}
PBT_ARM(curve_1d, 80, 3000) { bscurve<1, false>(s); }
PBT_ARM(curve_2d, 80, 3000) { bscurve<2, false>(s); }
PBT_ARM(curve_3d, 80, 3000) { bscurve<3, false>(s); }
PBT_ARM(nurbs_1d, 60, 2000) { bscurve<1, true>(s); }
PBT_ARM(nurbs_2d, 80, 3000) { bscurve<2, true>(s); }
PBT_ARM(nurbs_3d, 80, 3000) { bscurve<3, true>(s); }
template <size_t N> static void sevals(const py::object &o, const gbs::Surface<double, N> &c, Src &s, double m, const std::string &w, bool arc = true)
{
    auto B = c.bounds(); eq(o.attr("bounds")(), B, 10 + std::abs(B[1]) + std::abs(B[3]), w + " bounds"); size_t n = s.in(1, 5); auto r = s.bulk(); std::vector<std::array<double, 2>> UV; std::vector<double> U, V; for (size_t i = 0; i < n; i++) { U.push_back(r.range(B[0], B[1])); V.push_back(r.range(B[2], B[3])); } U[0] = B[0]; V.back() = B[3]; for (size_t i = 0; i < n; i++) UV.push_back({U[i], V[i]}); size_t du = s.in(0, 2), dv = s.in(0, 2); std::vector<std::array<double, N>> X; double M = m; for (auto &x : UV) { X.push_back(c(x[0], x[1], du, dv)); for (auto q : X.back()) M = std::max(M, std::abs(q)); }
    for (size_t i = 0; i < n; i++) { eq(o(U[i], V[i], du, dv), X[i], M, w + " at u, v"); eq(o.attr("value")(U[i], V[i], "dv"_a = dv, "du"_a = du), X[i], M, w + " value"); eq(o(UV[i], du, dv), X[i], M, w + " at uv"); eq(o.attr("value")("uv"_a = UV[i], "du"_a = du, "dv"_a = dv), X[i], M, w + " value uv"); eq(o(U[i], V[i]), c(U[i], V[i]), M, w + " without derivative"); }
    for (auto l : {py::object(o(UV, du, dv)), py::object(o.attr("value")("uv_lst"_a = UV, "du"_a = du, "dv"_a = dv)), py::object(o("u_lst"_a = U, "v_lst"_a = V, "du"_a = du, "dv"_a = dv)), py::object(o.attr("value")("u_lst"_a = U, "v_lst"_a = V, "du"_a = du, "dv"_a = dv))}) { auto sh = l.attr("shape").cast<std::vector<size_t>>(); REQUIRE_MSG(sh.size() == 2 && sh[1] == N, w << " shape"); eq(l, X, M, w + " values"); }
    if (arc) { std::vector<std::array<double, N>> a, b, c1, c2; double q = 0; bool ok = true; for (auto &x : UV) { for (auto t : {c(x[0], x[1], 1, 0), c(x[0], x[1], 0, 1)}) { double z = 0; for (auto y : t) z += y * y; if (z < 1e-3) ok = false; } } if (ok) { for (auto &x : UV) { a.push_back(c.d_dmu(x[0], x[1])); b.push_back(c.d_dmv(x[0], x[1])); c1.push_back(c.d_dmu2(x[0], x[1])); c2.push_back(c.d_dmv2(x[0], x[1])); for (auto &v : {c1.back(), c2.back()}) for (auto y : v) q = std::max(q, std::abs(y)); } eq(o.attr("d_dmu")(UV), a, 1, w + " d_dmu"); eq(o.attr("d_dmv")(UV), b, 1, w + " d_dmv"); eq(o.attr("d_dmu2")(UV), c1, q, w + " d_dmu2"); eq(o.attr("d_dmv2")(UV), c2, q, w + " d_dmv2"); eq(o.attr("d_dmu")(U[0], V[0]), a[0], 1, w + " d_dmu"); eq(o.attr("d_dmv")(U[0], V[0]), b[0], 1, w + " d_dmv"); eq(o.attr("d_dmu2")(U[0], V[0]), c1[0], q, w + " d_dmu2"); eq(o.attr("d_dmv2")(U[0], V[0]), c2[0], q, w + " d_dmv2"); } }
}
template <bool rat> static void bssurface(Src &s)
{
    auto S = gsrf<rat>(s, 1, 3, s.chance(1, 2)); auto g = S.make(); double m = S.scale(); using C = decltype(g); s << "p=" << S.U.p << "," << S.V.p << " U " << show(S.U.flat) << " V " << show(S.V.flat); auto cls = A("BSSurface" + std::string(rat ? "Rational" : "") + "3d"); std::vector<py::object> O{cls(S.P, S.U.flat, S.V.flat, S.U.p, S.V.p), cls("poles"_a = S.P, "knotsU"_a = g.knotsU(), "knotsV"_a = g.knotsV(), "multsU"_a = g.multsU(), "multsV"_a = g.multsV(), "degreeU"_a = S.U.p, "degreeV"_a = S.V.p), wrap(g)}; O.push_back(cls(O[0])); O.push_back(copied(O[1])); O.push_back(pickled(O[0]));
    if constexpr (rat) { std::vector<std::array<double, 3>> pp; std::vector<double> w; for (auto &x : S.P) { pp.push_back({x[0] / x[3], x[1] / x[3], x[2] / x[3]}); w.push_back(x[3]); } eq(O[0].attr("weights")(), w, 0, "weights"); eq(O[0].attr("polesProjected")(), pp, m, "poles projected"); eq(cls(pp, w, S.U.flat, S.V.flat, S.U.p, S.V.p), g, 10 * m, "poles and weights"); eq(cls("poles"_a = pp, "weights"_a = w, "knotsU"_a = g.knotsU(), "knotsV"_a = g.knotsV(), "multsU"_a = g.multsU(), "multsV"_a = g.multsV(), "degreeU"_a = S.U.p, "degreeV"_a = S.V.p), g, 10 * m, "poles, weights and multiplicities"); }
    for (auto &o : O) { REQUIRE(py::isinstance(o, cls)); eq(o, g, m, "surface"); eq(o.attr("nPolesU")(), S.U.n(), 0, "nPolesU"); eq(o.attr("nPolesV")(), S.V.n(), 0, "nPolesV"); eq(o.attr("degreeU")(), S.U.p, 0, "degreeU"); eq(o.attr("degreeV")(), S.V.p, 0, "degreeV"); eq(o.attr("knotsFlatsU")(), S.U.flat, 0, "U"); eq(o.attr("knotsFlatsV")(), S.V.flat, 0, "V"); eq(o.attr("knotsU")(), g.knotsU(), 0, "U"); eq(o.attr("knotsV")(), g.knotsV(), 0, "V"); eq(o.attr("multsU")(), g.multsU(), 0, "U"); eq(o.attr("multsV")(), g.multsV(), 0, "V"); eq(o.attr("poles")(), S.P, m, "poles"); }
    auto o = O[s.in(0, int(O.size()) - 1)]; size_t i = s.in(0, int(S.U.n()) - 1), j = s.in(0, int(S.V.n()) - 1); eq(o.attr("pole")(i, j), S.P[i + S.U.n() * j], m, "pole"); sevals<3>(o, g, s, m, "surface"); double u = s.real(S.U.lo(), S.U.hi()), v = s.real(S.V.lo(), S.V.hi()); eq(o(u, v), S.val(u, v), 100 * m, "model"); auto js = mod("json").attr("loads")(py::repr(o)); REQUIRE(py::len(js) > 0);
    auto f = [&](const char *n, size_t p, auto &K, double t) { size_t q = s.in(1, p); (void)K; o.attr(n)(t, "m"_a = q); return q; }; auto keep = copied(o); auto d = g; int op = s.in(0, 10); static const char *names[] = {"insertKnotU", "insertKnotV", "isoU", "isoV", "invertUV", "reverseU", "reverseV", "trimU", "trimV", "changeUBounds", "changeVBounds"}; std::string w = names[op]; s << " " << w; double a1 = S.U.lo(), l1 = S.U.hi() - a1, a2 = S.V.lo(), l2 = S.V.hi() - a2, u1 = a1 + l1 * s.real(0.05, 0.4), u2 = a1 + l1 * s.real(0.6, 0.95), v1 = a2 + l2 * s.real(0.05, 0.4), v2 = a2 + l2 * s.real(0.6, 0.95); for (auto x : S.U.brk) DISCARD_IF(std::abs(x - u1) < 1e-4 * l1 || std::abs(x - u2) < 1e-4 * l1); for (auto x : S.V.brk) DISCARD_IF(std::abs(x - v1) < 1e-4 * l2 || std::abs(x - v2) < 1e-4 * l2);
    switch (op) { case 0: d.insertKnotU(u1, f("insertKnotU", S.U.p, S.U, u1)); break; case 1: d.insertKnotV(v1, f("insertKnotV", S.V.p, S.V, v1)); break; case 2: eq(o.attr("isoU")("u"_a = u), g.isoU(u), m, w); break; case 3: eq(o.attr("isoV")("v"_a = v), g.isoV(v), m, w); break; case 4: o.attr("invertUV")(); d.invertUV(); break; case 5: o.attr("reverseU")(); d.reverseU(); break; case 6: o.attr("reverseV")(); d.reverseV(); break; case 7: o.attr("trimU")("u1"_a = u1, "u2"_a = u2); d.trimU(u1, u2); break; case 8: o.attr("trimV")("v1"_a = v1, "v2"_a = v2); d.trimV(v1, v2); break; case 9: o.attr("changeUBounds")("u1"_a = u1 - 1, "u2"_a = u2); d.changeUBounds(u1 - 1, u2); break; case 10: o.attr("changeVBounds")("v1"_a = v1, "v2"_a = v2 + 1); d.changeVBounds(v1, v2 + 1); break; }
    eq(o, d, 10 * m, w); eq(keep, g, m, "another object after " + w); s.nontrivial(S.U.n() != S.V.n() && (S.U.p > 1 || S.V.p > 1)); s.label(w); (void)sizeof(C);
}
PBT_ARM(surface, 150, 5000) { bssurface<false>(s); }
PBT_ARM(nurbs_surface, 150, 5000) { bssurface<true>(s); }
// shapes built upon others
template <size_t N> static void derived(Src &s)
{
    auto k = gcrv<N, false>(s, 2, 4, 3); DISCARD_IF(k.K.has_multiple()); auto base = std::make_shared<typename Crv<N, false>::C>(k.make()); double m = k.scale(), a = k.K.lo(), L = k.K.hi() - a; py::object b = A("BSCurve" + sfx(N))(k.P, k.K.flat, k.K.p), o; std::unique_ptr<gbs::Curve<double, N>> c; int kind = s.in(0, 6); static const char *names[] = {"line", "trimmed", "reversed", "extended", "reparametrized", "offset", "circle"}; std::string w = names[kind]; s << w << " p=" << k.K.p << " knots " << show(k.K.flat) << showp(k.P); std::function<void(py::object)> more = [](py::object) {}; bool pick = true; int dmax = 2; auto law = [&](double lo, double hi, double y0, double y1) { std::vector<double> P{y0, y0 + 0.4 * (y1 - y0), y1}, K{lo, lo, lo, hi, hi, hi}; return std::make_pair(gbs::BSCfunction<double>(P, K, 2), A("BSCfunction")("poles"_a = P, "knotsFlats"_a = K, "degree"_a = 2)); };
    switch (kind)
    {
    case 0: { auto p = k.P[0], q = k.P[1]; DISCARD_IF(dist(p, q) < 1e-3); c = std::make_unique<gbs::Line<double, N>>(p, q); o = A("Line" + sfx(N))(p, q); if (s.chance(1, 3)) { gbs::ax1<double, N> ax = static_cast<gbs::Line<double, N> &>(*c).getAx(); o = A("Line" + sfx(N))(ax); c = std::make_unique<gbs::Line<double, N>>(ax); } break; }
    case 1: { double u1 = a + L * s.real(0.05, 0.4), u2 = a + L * s.real(0.6, 0.95); c = std::make_unique<gbs::CurveTrimmed<double, N>>(base, u1, u2); o = A("CurveTrimmed" + sfx(N))("crv"_a = b, "u1"_a = u1, "u2"_a = u2); pick = false; break; }
    case 2: c = std::make_unique<gbs::CurveReversed<double, N>>(base); o = A("CurveReversed" + sfx(N))(b); more = [&](py::object x) { eq(x.attr("basisCurve")(), *base, m, "basis curve"); }; break;
    case 3: { bool cl = s.chance(1, 2); c = std::make_unique<gbs::CurveExtended<double, N>>(base, cl); o = cl || s.chance(1, 2) ? A("CurveExtended" + sfx(N))(b, "clamped"_a = cl) : A("CurveExtended" + sfx(N))(b); more = [&, cl](py::object x) { eq(x.attr("basisCurve")(), *base, m, "basis curve"); REQUIRE(x.attr("isClamped")().cast<bool>() == cl); for (double u : {a - 0.3 * L, a + 1.4 * L}) for (int d = 0; d < 2; d++) eq(x(u, d), (*c)(u, d), 10 * m + 100 * m / L, "beyond the ends"); }; break; }
    case 4: { double T = s.real(0.5, 3); auto [f, pf] = law(1, 1 + T, a, a + L); c = std::make_unique<gbs::CurveReparametrized<double, N>>(base, f); o = A("CurveReparametrized" + sfx(N))("crv"_a = b, "f_u"_a = pf); more = [&, pf](py::object x) { eq(x.attr("basisCurve")(), *base, m, "basis curve"); auto q = x.attr("paramFunction")(); eq(q.attr("bounds")(), pf.attr("bounds")().template cast<std::array<double, 2>>(), 1, "law"); }; break; }
    case 5: { dmax = 1; auto [f, pf] = law(a, a + L, s.real(0.1, 0.5), s.real(0.1, 0.5)); if constexpr (N == 2) { c = std::make_unique<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(base, f); o = A("CurveOffset2d_bs")(b, pf); } else if constexpr (N == 3) { std::array<double, 3> D{0.2, -0.1, 1}; c = std::make_unique<gbs::CurveOffset3D<double, gbs::BSCfunction<double>>>(base, f, D); o = A("CurveOffset3d_bs")(b, pf, D); more = [D](py::object x) { { auto U = D; double l = std::sqrt(D[0] * D[0] + D[1] * D[1] + D[2] * D[2]); for (auto &q : U) q /= l; eq(x.attr("direction")(), U, 1, "direction"); }; }; } else DISCARD_IF(true); for (auto u : {a, a + L, a + L / 2, a + L / 3}) { auto t = (*base)(u, 1); DISCARD_IF(std::hypot(t[0], t[1 % N]) < 0.05); } break; }
    case 6: { double R = s.real(0.3, 4); if constexpr (N == 2) { auto C = k.P[0]; c = std::make_unique<gbs::Circle2d<double>>(R, C); o = A("Circle2d")("r"_a = R, "C"_a = C); more = [R, C](py::object x) { eq(x.attr("r"), R, R, "radius"); eq(x.attr("c")(), C, 100, "centre"); }; } else if constexpr (N == 3) { gbs::ax1<double, 3> ax{k.P[0], std::array<double, 3>{s.sym(1), s.sym(1), s.real(0.3, 1)}}; c = std::make_unique<gbs::Circle3d<double>>(R, ax); o = A("Circle3d")("r"_a = R, "ax"_a = ax); more = [R, ax](py::object x) { eq(x.attr("r")(), R, R, "radius"); eq(x.attr("c")(), ax[0], 100, "centre"); }; } else DISCARD_IF(true); break; }
    }
    evals<N>(o, *c, s, 10 * m, w, dmax, kind != 6); more(o); if (pick) { auto q = pickled(o); REQUIRE(q.get_type().is(o.get_type())); evals<N>(q, *c, s, 10 * m, w + " pickled", 1, kind != 6); more(q); } if (kind == 0 || kind == 5) evals<N>(copied(o), *c, s, 10 * m, w + " copied", 1, kind != 6); if (kind == 0 || kind == 1 || kind == 6) evals<N>(o.get_type()(o).template cast<py::object>(), *c, s, 10 * m, w + " constructed from it", 1, kind != 6);
    // the shape keeps what it is built upon
    b = py::none(); mod("gc").attr("collect")(); evals<N>(o, *c, s, 10 * m, w + " alone", 1, kind != 6); s.nontrivial(kind != 0); s.label(w);
}
PBT_ARM(derived_1d, 60, 2000) { derived<1>(s); }
PBT_ARM(derived_2d, 150, 5000) { derived<2>(s); }
PBT_ARM(derived_3d, 150, 5000) { derived<3>(s); }
template <size_t N> static void oncurve(Src &s)
{
    auto S = gsrf<false>(s, 2, 3, true, 1); auto srf = std::make_shared<gbs::BSSurface<double, 3>>(S.make()); double m = S.scale(); auto k = gcrv<2, false>(s, 2, 3, 3); for (auto &x : k.P) for (auto &c : x) c = 0.5 + 0.45 * c / (1 + maxabs(k.P)); auto cc = std::make_shared<gbs::BSCurve<double, 2>>(k.make()); py::object b = A("BSCurve2d")(k.P, k.K.flat, k.K.p), g = A("BSSurface3d")(S.P, S.U.flat, S.V.flat, S.U.p, S.V.p), o; s << "p=" << k.K.p << showp(k.P); gbs::CurveOnSurface<double, 3> c(cc, srf); o = A("CurveOnSurface3d")(b, g); evals<3>(o, c, s, 10 * m, "curve on surface", 1); eq(o.attr("basisCurve")(), *cc, 1, "basis curve"); eq(o.attr("basisSurface")(), *srf, m, "basis surface"); evals<3>(pickled(o), c, s, 10 * m, "pickled", 1); evals<3>(copied(o), c, s, 10 * m, "copied", 1); b = g = py::none(); mod("gc").attr("collect")(); evals<3>(o, c, s, 10 * m, "alone", 1); s.nontrivial(); s.label("curve on surface");
}
PBT_ARM(on_surface, 80, 3000) { oncurve<3>(s); }
PBT_ARM(revolution, 80, 3000)
{
    auto k = gcrv<2, false>(s, 1, 3, 3); for (auto &x : k.P) x[1] = 1 + std::abs(x[1]); auto cc = std::make_shared<gbs::BSCurve<double, 2>>(k.make()); double m = k.scale() * 4; py::object b = A("BSCurve2d")(k.P, k.K.flat, k.K.p); double t = s.real(0, 6) , a1 = s.real(-1, 1), a2 = a1 + s.real(0.5, 5); gbs::ax2<double, 3> ax{std::array<double, 3>{s.sym(3), s.sym(3), s.sym(3)}, std::array<double, 3>{std::cos(t), 0, std::sin(t)}, std::array<double, 3>{0, 1, 0}}; bool def = s.chance(1, 4); gbs::ax2<double, 3> z{std::array<double, 3>{0, 0, 0}, std::array<double, 3>{0, 0, 1}, std::array<double, 3>{1, 0, 0}}; s << showp(k.P) << (def ? " default axis" : ""); if (def) { ax = z; a1 = 0; a2 = 2 * std::numbers::pi; } gbs::SurfaceOfRevolution<double> g(cc, ax, a1, a2); py::object o = def ? A("SurfaceOfRevolution")(b) : A("SurfaceOfRevolution")("crv"_a = b, "ax"_a = ax, "a1"_a = a1, "a2"_a = a2); sevals<3>(o, g, s, m, "surface of revolution", false); auto q = pickled(o); sevals<3>(q, g, s, m, "pickled", false); sevals<3>(copied(o), g, s, m, "copied", false); sevals<3>(A("make_shared")(o), g, s, m, "shared", false); b = py::none(); mod("gc").attr("collect")(); sevals<3>(o, g, s, m, "alone", false); REQUIRE(py::len(mod("json").attr("loads")(py::repr(o))) > 0); s.nontrivial(!def); s.label(def ? "default" : "given axis");
}
PBT_ARM(scalar_functions, 150, 5000)
{
    auto k = gcrv<1, false>(s, 1, 4, 4); std::vector<double> P; for (auto &x : k.P) P.push_back(x[0]); gbs::BSCfunction<double> f(P, k.K.flat, k.K.p); double m = k.scale(); s << show(k.K.flat) << show(P); auto b = A("BSCurve1d")(k.P, k.K.flat, k.K.p); auto c = k.make(); auto cls = A("BSCfunction"); std::vector<py::object> O{cls(P, k.K.flat, k.K.p), cls(k.P, "knotsFlats"_a = k.K.flat, "degree"_a = k.K.p), cls("poles"_a = P, "knots"_a = c.knots(), "mults"_a = c.mults(), "degree"_a = k.K.p), cls(b)}; O.push_back(cls(O[0])); O.push_back(copied(O[0])); O.push_back(pickled(O[1])); for (auto &o : O) { eq(o.attr("bounds")(), f.bounds(), 10, "bounds"); for (int i = 0; i < 3; i++) { double u = s.real(k.K.lo(), k.K.hi()); for (size_t d = 0; d < 3; d++) { double v = f(u, d); eq(o(u, d), v, m + std::abs(v), "function"); eq(o.attr("value")("u"_a = u, "d"_a = d), v, m + std::abs(v), "function"); } eq(o(u), f(u), m, "function"); } eq(o.attr("basisCurve")(), f.basisCurve(), m, "basis curve"); }
    auto &o = O[s.in(0, int(O.size()) - 1)]; if (s.chance(1, 2)) o.attr("changeBounds")(2., 5.); else o.attr("changeBounds")(std::array<double, 2>{2, 5}); f.changeBounds(2., 5.); eq(o.attr("bounds")(), f.bounds(), 5, "changed bounds"); eq(o(3.3), f(3.3), m, "function, changed bounds");
    auto S = gsrf<false>(s, 1, 3, s.chance(1, 2)); std::vector<double> Q; for (auto &x : S.P) Q.push_back(x[2]); gbs::BSSfunction<double> g(Q, S.U.flat, S.V.flat, S.U.p, S.V.p); auto sc = A("BSSfunction"); auto bs = g.basisSurface(); std::vector<py::object> W{sc(Q, S.U.flat, S.V.flat, S.U.p, S.V.p), sc("poles"_a = Q, "knotsU"_a = bs.knotsU(), "knotsV"_a = bs.knotsV(), "multsU"_a = bs.multsU(), "multsV"_a = bs.multsV(), "degreeU"_a = S.U.p, "degreeV"_a = S.V.p)}; W.push_back(sc(W[0].attr("basisSurface")())); W.push_back(sc(W[0])); W.push_back(copied(W[0])); W.push_back(pickled(W[1])); for (auto &w : W) { eq(w.attr("bounds")(), g.bounds(), 10, "bounds"); for (int i = 0; i < 3; i++) { double u = s.real(S.U.lo(), S.U.hi()), v = s.real(S.V.lo(), S.V.hi()); for (size_t d = 0; d < 2; d++) for (size_t e = 0; e < 2; e++) { double y = g(u, v, d, e); eq(w(u, v, d, e), y, 10 + std::abs(y), "function of two parameters"); eq(w("u"_a = u, "v"_a = v, "dv"_a = e, "du"_a = d), y, 10 + std::abs(y), "function of two parameters"); } eq(w(u, v), g(u, v), 10, "function of two parameters"); } } s.nontrivial(k.K.brk.size() > 2 && S.U.n() != S.V.n()); s.label("functions");
}
template <size_t N> static void vectors(Src &s)
{
    std::array<double, N> a, b; auto r = s.bulk(); for (auto &x : a) x = r.range(-5, 5); for (auto &x : b) x = r.range(-5, 5); double t = r.range(-3, 3); s << show(a) << show(b); std::array<double, N> w = a; double d = 0, na = 0, nb = 0, ds = 0; for (size_t i = 0; i < N; i++) { d += a[i] * b[i]; na += a[i] * a[i]; nb += b[i] * b[i]; ds += (a[i] - b[i]) * (a[i] - b[i]); } na = std::sqrt(na); nb = std::sqrt(nb); ds = std::sqrt(ds); DISCARD_IF(na < 1e-2 || nb < 1e-2); auto comp = [&](auto f) { for (size_t i = 0; i < N; i++) w[i] = f(i); return w; };
    eq(A("add")(a, b), comp([&](int i) { return a[i] + b[i]; }), 10, "add"); eq(A("sub")("v1"_a = a, "v2"_a = b), comp([&](int i) { return a[i] - b[i]; }), 10, "sub"); eq(A("mult")(t, a), comp([&](int i) { return t * a[i]; }), 10, "mult"); eq(A("neg")(a), comp([&](int i) { return -a[i]; }), 10, "neg"); eq(A("adim")(a), comp([&](int i) { return a[i] / na; }), 1, "adim"); eq(A("dot")(a, b), d, 100, "dot"); eq(A("norm")(a), na, 10, "norm"); eq(A("dist")(a, b), ds, 10, "dist"); eq(A("length")(a, b), ds, 10, "length"); double ang; if constexpr (N == 3) { std::array<double, 3> c{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; eq(A("cross")(a, b), c, 100, "cross"); eq(A("translated")(a, b), comp([&](int i) { return a[i] + b[i]; }), 10, "translated"); double nc = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); ang = std::atan2(nc, d); eq(A("rotated")(a, t), std::array<double, 3>{a[0] * std::cos(t) - a[1] * std::sin(t), a[0] * std::sin(t) + a[1] * std::cos(t), a[2]}, 10, "rotated about z"); eq(A("rotated")("pt"_a = a, "angle"_a = t, "ax"_a = b), gbs::rotated<double>(a, t, b), 10, "rotated about an axis"); } else { ang = std::atan2(a[0] * b[1] - a[1] * b[0], d); eq(A("rotated")(a, t), std::array<double, 2>{a[0] * std::cos(t) - a[1] * std::sin(t), a[0] * std::sin(t) + a[1] * std::cos(t)}, 10, "rotated"); std::array<double, 2> e{a[0] - b[0], a[1] - b[1]}; eq(A("rotated")(a, t, "center"_a = b), std::array<double, 2>{b[0] + e[0] * std::cos(t) - e[1] * std::sin(t), b[1] + e[0] * std::sin(t) + e[1] * std::cos(t)}, 10, "rotated about a centre"); }
    double got = A("angle")(a, b).template cast<double>(); REQUIRE_MSG(std::abs(std::abs(got) - std::abs(ang)) < 1e-6, "angle " << got << " instead of " << ang); eq(A("scaled")(a, t), comp([&](int i) { return t * a[i]; }), 10, "scaled"); eq(A("scaled")("pt"_a = a, "s"_a = t, "center"_a = b), comp([&](int i) { return b[i] + t * (a[i] - b[i]); }), 30, "scaled from a centre"); s.nontrivial(); s.label(sfx(N));
}
PBT_ARM(vectors_2d, 150, 5000) { vectors<2>(s); }
PBT_ARM(vectors_3d, 150, 5000) { vectors<3>(s); }
template <size_t N> static void basis(Src &s)
{
    auto k = gcrv<N, false>(s, 1, 4, 4); auto c = k.make(); double m = k.scale(), u = s.real(k.K.lo(), k.K.hi()); size_t d = s.in(0, 2), i = s.in(0, int(k.P.size()) - 1); s << show(k.K.flat) << " u=" << u; { double b = gbs::basis_function<double>(u, i, k.K.p, d, k.K.flat); eq(A("basis_function")(u, "i"_a = i, "p"_a = k.K.p, "d"_a = d, "k"_a = k.K.flat), b, std::abs(b), "basis_function"); } auto x = k.val(u, d); double M = m; for (auto y : x) M = std::max(M, std::abs(y)); std::array<double, N> got = A("eval")(u, k.K.flat, k.P, k.K.p, d).template cast<std::array<double, N>>(); for (size_t q = 0; q < N; q++) REQUIRE_MSG(std::abs(got[q] - x[q]) <= 1e-8 * (1 + M) * 100, "eval: " << show(got) << " instead of " << show(x)); eq(A("eval")("u"_a = u, "knots_flat"_a = k.K.flat, "poles"_a = k.P, "degree"_a = k.K.p), k.val(u), 1e3 * m, "eval");
    std::vector<double> w; auto r = s.bulk(); for (size_t q = 0; q < k.P.size(); q++) w.push_back(r.range(0.5, 2)); gbs::BSCurveRational<double, N> R(k.P, k.K.flat, w, k.K.p); { auto v = R(u, d); double Mr = m; for (auto y : v) Mr = std::max(Mr, std::abs(y)); got = A("eval")("u"_a = u, "knots_flat"_a = k.K.flat, "poles"_a = k.P, "weights"_a = w, "degree"_a = k.K.p, "derivative"_a = d, "use_span_reduction"_a = true).template cast<std::array<double, N>>(); for (size_t q = 0; q < N; q++) REQUIRE_MSG(std::abs(got[q] - v[q]) <= 1e-8 * (1 + Mr), "rational eval: " << show(got) << " instead of " << show(v)); }
    auto km = gbs::knots_and_mults<double>(k.K.flat); auto pr = [](py::object x) { return std::make_pair(x[py::int_(0)].template cast<std::vector<double>>(), x[py::int_(1)].template cast<std::vector<size_t>>()); }; auto o = pr(A("knots_and_mults")("flat_knots"_a = k.K.flat)); same(o.first, km.first, 10, "knots"); same(o.second, km.second, 0, "multiplicities"); auto fk = A("flat_knots")("knots"_a = o.first, "mults"_a = o.second); eq(fk, k.K.flat, 10, "flat_knots"); auto un = A("unflat_knots")(k.K.flat).template cast<std::vector<std::pair<double, size_t>>>(); REQUIRE(un.size() == km.first.size()); for (size_t q = 0; q < un.size(); q++) { same(un[q].first, km.first[q], 10, "unflat_knots"); same(un[q].second, km.second[q], 0, "unflat_knots"); } size_t n = s.in(int(k.K.p) + 1, 12); eq(A("build_simple_mult_flat_knots")("u1"_a = 1., "u2"_a = 3., "n_poles"_a = n, "degree"_a = k.K.p), gbs::build_simple_mult_flat_knots<double>(1., 3., n, k.K.p), 3, "build_simple_mult_flat_knots");
    for (auto [e, nm] : {std::pair{gbs::KnotsCalcMode::EQUALLY_SPACED, "EQUALLY_SPACED"}, {gbs::KnotsCalcMode::CHORD_LENGTH, "CHORD_LENGTH"}, {gbs::KnotsCalcMode::CENTRIPETAL, "CENTRIPETAL"}}) { auto pm = A("KnotsCalcMode").attr(nm); std::vector<std::array<double, N>> P(k.P.begin(), k.P.end()); bool ok = true; for (size_t q = 1; q < P.size(); q++) if (dist(P[q], P[q - 1]) < 1e-6) ok = false; if (!ok) continue; auto up = gbs::curve_parametrization<double, N>(P, e, true); eq(A("curve_parametrization")(P, pm, "adimensional"_a = true), up, 1, nm); auto u2 = gbs::curve_parametrization<double, N>(P, e, false); eq(A("curve_parametrization")("pts"_a = P, "mode"_a = pm), u2, u2.back(), nm); for (size_t p = 1; p < std::min<size_t>(4, P.size()); p++) { auto cc = gbs::interpolate<double, N>(P, p, e); eq(A("interpolate_cn")(P, p, pm), cc, 1e3 * m, "interpolate_cn"); if (e == gbs::KnotsCalcMode::CHORD_LENGTH) eq(A("interpolate_cn")("pts"_a = P, "p"_a = p), cc, 1e3 * m, "interpolate_cn, default mode"); eq(A("interpolate_cn")(P, up, p), gbs::interpolate<double, N>(P, up, p), 1e3 * m, "interpolate_cn at given parameters"); } } s.nontrivial(k.K.brk.size() > 2); s.label(sfx(N));
}
PBT_ARM(basis_1d, 80, 3000) { basis<1>(s); }
PBT_ARM(basis_2d, 80, 3000) { basis<2>(s); }
PBT_ARM(basis_3d, 80, 3000) { basis<3>(s); }
template <size_t N, bool rat> static void ctools(Src &s)
{
    auto k = gcrv<N, rat>(s, 2, 4, 3), k2 = gcrv<N, rat>(s, 2, 4, 3); DISCARD_IF(k.K.has_multiple() || k2.K.has_multiple()); using C = typename Crv<N, rat>::C; C c = k.make(), c2 = k2.make(); double m = 10 * (k.scale() + k2.scale()), a = k.K.lo(), L = k.K.hi() - a; auto o = wrap(c), o2 = wrap(c2); s << "p=" << k.K.p << "," << k2.K.p << " " << show(k.K.flat) << showp(k.P); for (double u : {a, a + L, k2.K.lo(), k2.K.hi()}) { auto &cc = u == a || u == a + L ? c : c2; auto t = cc(std::min(std::max(u, cc.bounds()[0]), cc.bounds()[1]), 1); double q = 0; for (auto x : t) q += x * x; DISCARD_IF(q < 0.05); }
    { std::optional<gbs::BSCurve<double, N>> dummy; py::object r; std::optional<C> w; if (both([&] { r = A("join")(o, o2); }, [&] { w = gbs::join<double, N, rat, rat>(static_cast<const gbs::BSCurveGeneral<double, N, rat> &>(c), static_cast<const gbs::BSCurveGeneral<double, N, rat> &>(c2)); }, "join")) eq(r, *w, m, "join"); }
    std::array<double, N> pt; for (size_t i = 0; i < N; i++) pt[i] = c.end()[i] + s.real(0.5, 2); bool nat = s.chance(1, 2), at = s.chance(1, 2), rel = s.chance(1, 2); std::optional<size_t> mc; if (s.chance(1, 2)) mc = s.in(1, 2); double l = s.real(0.2, 0.6); const gbs::BSCurveGeneral<double, N, rat> &g = c; auto kw = [&](py::dict d) { if (mc) d["max_cont"] = *mc; return d; };
    { py::object r; std::optional<C> w; if (both([&] { r = A("extended")(o, l, **kw(py::dict("at_end"_a = at, "relative"_a = rel, "natural_end"_a = nat))); }, [&] { w = gbs::extended<double, N, rat>(g, l, at, rel, nat, mc); }, "extended")) eq(r, *w, 1e3 * m, "extended"); if (both([&] { r = A("extended_to_point")(o, pt, **kw(py::dict("at_end"_a = at, "natural_end"_a = nat))); }, [&] { w = gbs::extended_to_point<double, N, rat>(g, pt, at, nat, mc); }, "extended_to_point")) eq(r, *w, 1e3 * m, "extended_to_point"); if (both([&] { r = A("extention_to_point")(o, pt, a + L, **kw(py::dict("natural_end"_a = nat))); }, [&] { w = gbs::extention_to_point<double, N, rat>(g, pt, a + L, nat, mc); }, "extention_to_point")) eq(r, *w, 1e3 * m, "extention_to_point"); }
    if constexpr (N == 2 && !rat) { eq(A("to_bscurve_3d")(o, 1.5), gbs::add_dimension(c, 1.5), m, "to_bscurve_3d"); eq(A("to_bscurve_3d")(o), gbs::add_dimension(c, 0.), m, "to_bscurve_3d"); }
    if constexpr (!rat) { eq(A("build_derivate")(o), gbs::build_derivate<double, N>(c), 100 * m / L, "build_derivate"); eq(A("build_integrate")(o, pt), gbs::build_integrate<double, N>(c, pt), 10 * m, "build_integrate"); eq(A("build_integrate")(o), gbs::build_integrate<double, N>(c, std::array<double, N>{}), 10 * m, "build_integrate"); if constexpr (N > 1) { auto t = wrap(c); auto d = c; std::array<double, N> v; for (auto &x : v) x = s.sym(4); double f = s.real(0.3, 2); switch (s.in(0, 2)) { case 0: A("translate")(t, "vec"_a = v); gbs::translate(d, v); break; case 1: if constexpr (N == 2) { A("rotate")(t, f); gbs::rotate(d, f); } else { A("rotate")(t, "angle"_a = f, "axis"_a = v); gbs::rotate(d, f, v); } break; case 2: if (s.chance(1, 2)) { A("scale")(t, f); gbs::scale(d, f, std::array<double, N>{}); } else { A("scale")("crv"_a = t, "s"_a = f, "center"_a = v); gbs::scale(d, f, v); } break; } eq(t, d, 10 * m, "moved curve"); eq(o, c, m, "another curve"); } eq(A((N == 2 ? "build_segment2d" : N == 3 ? "build_segment3d" : "build_segment1d"))(k.P[0], pt), gbs::build_segment<double, N>(k.P[0], pt), m, "build_segment"); eq(A(("build_segment" + sfx(N)))("p1"_a = k.P[0], "p2"_a = pt, "normalized_param"_a = true), gbs::build_segment<double, N>(k.P[0], pt, true), m, "build_segment"); if constexpr (N > 1) { eq(A("build_circle" + sfx(N))(l, "center"_a = pt), gbs::build_circle<double, N>(l, pt), m, "build_circle"); eq(A("build_ellipse" + sfx(N))("radius1"_a = l, "radius2"_a = 2 * l, "center"_a = pt), gbs::build_ellipse<double, N>(l, 2 * l, pt), m, "build_ellipse"); eq(A("build_circle" + sfx(N))("radius"_a = l), gbs::build_circle<double, N>(l), m, "build_circle"); } }
    s.nontrivial(k.K.p != k2.K.p); s.label(mc ? "continuity given" : "natural continuity");
}
PBT_ARM(curve_tools_1d, 60, 2000) { ctools<1, false>(s); }
PBT_ARM(curve_tools_2d, 80, 3000) { ctools<2, false>(s); }
PBT_ARM(curve_tools_3d, 80, 3000) { ctools<3, false>(s); }
PBT_ARM(nurbs_tools_2d, 60, 2000) { ctools<2, true>(s); }
PBT_ARM(nurbs_tools_3d, 60, 2000) { ctools<3, true>(s); }
template <size_t N> static void analysis(Src &s)
{
    auto k = gcrv<N, false>(s, 2, 4, 3); DISCARD_IF(k.K.has_multiple()); for (size_t i = 0; i < k.P.size(); i++) k.P[i][0] = 2. * i + 0.1 * k.P[i][0] / (1 + maxabs(k.P)); auto c = k.make(); const gbs::Curve<double, N> &g = c; auto o = A("BSCurve" + sfx(N))(k.P, k.K.flat, k.K.p); double m = 10 * k.scale(), a = k.K.lo(), L = k.K.hi() - a, u1 = a + L * s.real(0.05, 0.4), u2 = a + L * s.real(0.6, 0.95), u = a + L * s.unit(); s << "p=" << k.K.p << " " << show(k.K.flat) << showp(k.P);
    for (int d = 0; d < 2; d++) { double M = 100 * m / (d ? L : 1); eq(A("length")(o, "d"_a = d), gbs::length<double, N, 100>(g, d, false), M, "length"); eq(A("length")(o, u1, u2, "d"_a = d), gbs::length<double, N, 100>(g, u1, u2, d, false), M, "length of a part"); eq(A("length_fast")(o, d), gbs::length<double, N, 15>(g, d, false), M, "length_fast"); eq(A("length_fast")("crv"_a = o, "u1"_a = u1, "u2"_a = u2, "d"_a = d), gbs::length<double, N, 15>(g, u1, u2, d, false), M, "length_fast"); } eq(A("length")(o), gbs::length<double, N, 100>(g, 0, false), 100 * m, "length"); eq(A("length_adaptive_15")(o), gbs::length<double, N, 15>(g, 0, true), 100 * m, "length_adaptive_15"); eq(A("length_adaptive_15")(o, u1, u2), gbs::length<double, N, 15>(g, u1, u2, 0, true), 100 * m, "length_adaptive_15"); eq(A("length_adaptive_31")(o), gbs::length<double, N, 31>(g, 0, true), 100 * m, "length_adaptive_31"); eq(A("length_adaptive_31")(o, u1, u2), gbs::length<double, N, 31>(g, u1, u2, 0, true), 100 * m, "length_adaptive_31");
    auto law = [&](const char *nm, auto py_, auto cpp, double lo) { py::object pf; std::optional<gbs::BSCfunction<double>> f; if (!both([&] { pf = py_(); }, [&] { f.emplace(cpp()); }, nm)) return; auto B = f->bounds(); eq(pf.attr("bounds")(), B, 100 * m, std::string(nm) + " bounds"); for (int i = 0; i < 3; i++) { double t = B[0] + (B[1] - B[0]) * s.unit(); eq(pf(t), (*f)(t), 10 + std::abs(lo), nm); } };
    law("abs_curv", [&] { return A("abs_curv")(o, 20, "p"_a = 3); }, [&] { return gbs::abs_curv<double, N, 31>(g, size_t(20), size_t(3)); }, a); law("abs_curv of a part", [&] { return A("abs_curv")(o, "u1"_a = u1, "u2"_a = u2, "n"_a = 20); }, [&] { return gbs::abs_curv<double, N, 31>(g, u1, u2, size_t(20), size_t(3)); }, a); law("abs_curv, default", [&] { return A("abs_curv")(o); }, [&] { return gbs::abs_curv<double, N, 31>(g, size_t(30), size_t(3)); }, a); law("abs_curv_adaptive", [&] { return A("abs_curv_adaptive")(o, 10); }, [&] { return gbs::abs_curv_adaptive<double, N, 31>(g, 10, 3, 0.001); }, a); law("abs_curv_adaptive of a part", [&] { return A("abs_curv_adaptive")(o, u1, u2, 10, "tolerance"_a = 0.01); }, [&] { return gbs::abs_curv_adaptive<double, N, 31>(g, u1, u2, 10, 3, 0.01); }, a);
    auto td = gbs::tangential_direction<double, N>(g, u); eq(A("tangential_direction")(o, u), td, 1, "tangential_direction"); if constexpr (N == 2) eq(A("normal_direction")("crv"_a = o, "u"_a = u), gbs::normal_direction<double>(g, u), 1, "normal_direction"); else { auto nd = gbs::normal_direction<double>(g, u); if (std::isfinite(nd[0]) && mag(c(u, 2)) > 1e-3) eq(A("normal_direction")("crv"_a = o, "u"_a = u), nd, 10, "normal_direction"); }
    using V = std::vector<std::array<double, N>>; auto vv = [](const auto &l) { return V(l.begin(), l.end()); }; size_t np = s.in(2, 40), nm = s.in(5, 60); double dev = s.one_of({0.01, 0.001, 0.1}); std::vector<double> U; for (size_t i = 0; i < np; i++) U.push_back(s.real(a, a + L)); eq(A("make_points")(o, U, 0), vv(gbs::make_points(g, U, 0)), m, "make_points"); eq(A("make_points")(o, U, 1), vv(gbs::make_points(g, U, 1)), 10 * m / L, "make_points"); { py::object r; V w; if (both([&] { r = A("discretize_curve_unif")(o, "np"_a = np); }, [&] { w = vv(gbs::discretize(g, np)); }, "discretize_curve_unif")) eq(r, w, 10 * m, "discretize_curve_unif"); } eq(A("discretize_curve")(o, np, dev), vv(gbs::discretize(g, np, dev, 5000)), m, "discretize_curve"); eq(A("discretize_curve")(o, "np"_a = 30), vv(gbs::discretize(g, 30, 0.01, 5000)), m, "discretize_curve"); eq(A("discretize_curve")(o, np, dev, nm), vv(gbs::discretize(g, np, dev, nm)), m, "discretize_curve, at most " + std::to_string(nm));
    auto dl = [](const auto &l) { return std::vector<double>(l.begin(), l.end()); }; eq(A("deviation_based_params")(o, np, dev, nm), dl(gbs::deviation_based_params<double, N>(g, np, dev, nm)), 10 + std::abs(a), "deviation_based_params, at most " + std::to_string(nm)); eq(A("deviation_based_params")(o, "np"_a = np, "dev"_a = dev), dl(gbs::deviation_based_params<double, N>(g, np, dev, 5000)), 10 + std::abs(a), "deviation_based_params"); eq(A("deviation_based_params")(o, u1, u2, np, dev, nm), dl(gbs::deviation_based_params<double, N>(g, u1, u2, np, dev, nm)), 10 + std::abs(a), "deviation_based_params of a part"); { py::object r; std::vector<double> w; if (both([&] { r = A("uniform_distrib_params")(o, u1, u2, np); }, [&] { w = dl(gbs::uniform_distrib_params<double, N>(g, u1, u2, np, 30)); }, "uniform_distrib_params")) eq(r, w, 10 + std::abs(a), "uniform_distrib_params"); }
    { auto P = k.val(u); P[1] += 0.05; auto e = gbs::extrema_curve_point<double, N>(g, P, 1e-6); auto q = A("extrema_curve_point")(o, P, 1e-6); eq(q, e, 10 * m, "extrema_curve_point"); auto e2 = gbs::extrema_curve_point<double, N>(g, P, u, 1e-6); eq(A("extrema_curve_point")("crv"_a = o, "pnt"_a = P, "u0"_a = u, "tol_u"_a = 1e-6), e2, 10 * m, "extrema_curve_point from a start"); double x = k.val(u)[0]; eq(A("solve_coordinate")(o, 0, x), gbs::solve_coordinate<double, N>(g, 0, x), 10 + std::abs(a), "solve_coordinate"); }
    s.nontrivial(k.K.brk.size() > 2); s.label(sfx(N));
}
PBT_ARM(analysis_2d, 60, 2000) { analysis<2>(s); }
PBT_ARM(analysis_3d, 60, 2000) { analysis<3>(s); }

// surfaces: tools
template <bool rat> static void stools(Src &s)
{
    auto S = gsrf<rat>(s, 2, 3, s.chance(1, 2), 1), S2 = gsrf<rat>(s, 2, 3, s.chance(1, 2), 1); using C = decltype(S.make()); C g = S.make(), g2 = S2.make(); const gbs::BSSurfaceGeneral<double, 3, rat> &G1 = g, &G2 = g2; double m = 10 * (S.scale() + S2.scale());
    auto o = wrap(g), o2 = wrap(g2); s << "p=" << S.U.p << "," << S.V.p << " U " << show(S.U.flat) << " V " << show(S.V.flat);
    double u = S.U.lo() + (S.U.hi() - S.U.lo()) * s.real(0.1, 0.9), v = S.V.lo() + (S.V.hi() - S.V.lo()) * s.real(0.1, 0.9); for (auto x : S.U.brk) DISCARD_IF(std::abs(x - u) < 1e-4); for (auto x : S.V.brk) DISCARD_IF(std::abs(x - v) < 1e-4);
    { std::optional<std::pair<C, C>> w; py::object r; if (both([&] { r = A("split_u")(o, "u"_a = u); }, [&] { auto [a, b] = gbs::split_u<double, 3, rat>(G1, u); w.emplace(a, b); }, "split_u")) { eq(r[py::int_(0)], w->first, m, "split_u"); eq(r[py::int_(1)], w->second, m, "split_u"); } w.reset(); if (both([&] { r = A("split_v")(o, "v"_a = v); }, [&] { auto [a, b] = gbs::split_v<double, 3, rat>(G1, v); w.emplace(a, b); }, "split_v")) { eq(r[py::int_(0)], w->first, m, "split_v"); eq(r[py::int_(1)], w->second, m, "split_v"); } }
    { py::object r; std::optional<C> w; bool rebuilt = s.chance(2, 3); auto g3 = g2; if (rebuilt) { auto P2 = S2.P; g3 = C(S.P, S.U.flat, S.V.flat, S.U.p, S.V.p); } auto o3 = wrap(g3); const gbs::BSSurfaceGeneral<double, 3, rat> &G3 = g3; if (both([&] { r = A("join")(o, o3); }, [&] { w = gbs::join<double, 3, rat, rat>(G1, G3); }, "join")) eq(r, *w, m, "join"); (void)G2; }
    // extension beyond an edge, towards a curve
    bool nat = s.chance(1, 2); std::optional<size_t> mc; if (s.chance(1, 2)) mc = s.in(1, 2); auto kw = [&](py::dict d) { if (mc) d["max_cont"] = *mc; return d; }; double l = s.real(0.2, 0.6);
    { auto P = S.P; std::vector<typename decltype(S.P)::value_type> row; size_t nu = S.U.n(); for (size_t j = 0; j < S.V.n(); j++) { auto x = P[nu - 1 + nu * j]; double w = 1; if constexpr (rat) w = x[3]; x[0] += (1 + l) * w; x[2] += 0.3 * w; row.push_back(x); } typename Crv<3, rat>::C e(row, S.V.flat, S.V.p); auto pe = wrap(e); const gbs::BSCurveGeneral<double, 3, rat> &E = e; py::object r; std::optional<C> w; if (both([&] { r = A("extention_to_curve")(o, pe, **kw(py::dict("natural_end"_a = nat))); }, [&] { w = gbs::extention_to_curve<double, 3, rat>(G1, E, nat, mc); }, "extention_to_curve")) eq(r, *w, 1e3 * m, "extention_to_curve"); w.reset(); if (both([&] { r = A("extended_to_curve")(o, pe, **kw(py::dict("natural_end"_a = nat))); }, [&] { w = gbs::extended_to_curve<double, 3, rat>(G1, E, nat, mc); }, "extended_to_curve")) eq(r, *w, 1e3 * m, "extended_to_curve"); }
    if constexpr (!rat) { auto t = wrap(g); auto d = g; std::array<double, 3> q{s.sym(3), s.sym(3), s.sym(3)}; double f = s.real(0.3, 2); switch (s.in(1, 2)) { case 1: A("rotate")(t, "angle"_a = f, "axis"_a = q); gbs::rotate(d, f, q); break; case 2: if (s.chance(1, 2)) { A("scale")(t, f); gbs::scale(d, f, std::array<double, 3>{}); } else { A("scale")("srf"_a = t, "s"_a = f, "center"_a = q); gbs::scale(d, f, q); } break; } eq(t, d, 10 * m, "moved surface"); eq(o, g, m, "another surface"); }
    { size_t nu = s.in(2, 8), nv = s.in(2, 8); auto l1 = gbs::discretize(static_cast<const gbs::Surface<double, 3> &>(g), nu, nv); std::vector<std::array<double, 3>> w(l1.begin(), l1.end()); eq(A("discretize_surface_unif")(o, "nu"_a = nu, "nv"_a = nv), w, m, "discretize_surface_unif"); }
    if constexpr (!rat) { std::vector<std::array<double, 2>> P2; for (auto &x : S.P) P2.push_back({x[0], x[1]}); gbs::BSSurface<double, 2> f(P2, S.U.flat, S.V.flat, S.U.p, S.V.p); auto pf = A("BSSurface2d")(P2, S.U.flat, S.V.flat, S.U.p, S.V.p); eq(A("to_bssurface_3d")(pf, "z"_a = 1.5), gbs::add_dimension(f, 1.5), m, "to_bssurface_3d"); eq(A("to_bssurface_3d")(pf), gbs::add_dimension(f, 0.), m, "to_bssurface_3d"); eq(A("add_dimension")(pf, "val"_a = 2.), gbs::add_dimension(f, 2.), m, "add_dimension"); }
    s.nontrivial(S.U.n() != S.V.n()); s.label(rat ? "rational" : "polynomial");
}
PBT_ARM(surface_tools, 80, 3000) { stools<false>(s); }
PBT_ARM(nurbs_surface_tools, 80, 3000) { stools<true>(s); }
template <size_t N> static void sbuild(Src &s)
{
    G(); size_t n = s.in(2, 5); std::list<gbs::BSCurve<double, N>> L; std::vector<std::shared_ptr<gbs::Curve<double, N>>> C; py::list o; double m = 0; for (size_t i = 0; i < n; i++) { auto k = gcrv<N, false>(s, 1, 3, 2); DISCARD_IF(k.K.has_multiple()); for (auto &x : k.P) x[N - 1] = 2. * i + 0.3 * x[N - 1] / (1 + maxabs(k.P)); L.push_back(k.make()); L.back().changeBounds(0., 1.); C.push_back(std::make_shared<gbs::BSCurve<double, N>>(L.back())); o.append(wrap(L.back())); m = std::max(m, 100 * k.scale()); s << showp(k.P); }
    std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(i * (1 + 0.1 * i)); size_t q = s.in(1, 3), qq = std::min(q, n - 1); auto fv = gbs::build_simple_mult_flat_knots<double>(v, qq);
    eq(A("loftbs")(o, q), gbs::loft_generic<double, N>(L.begin(), L.end(), q), m, "loftbs"); eq(A("loftbs")("bs_lst"_a = o, "v"_a = v, "v_degree"_a = qq), gbs::loft_generic<double, N>(L.begin(), L.end(), v, qq), m, "loftbs at given v"); eq(A("loftbs")(o, v, fv, qq), gbs::loft_generic<double, N>(L.begin(), L.end(), v, fv, qq), m, "loftbs with given knots"); eq(A("loft")(o), gbs::loft<double, N>(C, 3, 0.01, 100, 5), m, "loft"); eq(A("loft")(o, "v_degree_max"_a = q), gbs::loft<double, N>(C, q, 0.01, 100, 5), m, "loft"); eq(A("loft")(o, v, qq), gbs::loft<double, N>(C, v, qq, 0.01, 100, 5), m, "loft at given v");
    // grids of points
    size_t nu = s.in(3, 6), nv = s.in(3, 6); std::vector<std::array<double, N>> Q; auto r = s.bulk(); for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) { std::array<double, N> x; for (auto &c : x) c = r.range(-0.2, 0.2); x[0] += double(i); x[N - 1] += double(j) * (N == 1 ? 10 : 1); Q.push_back(x); } size_t p = s.in(1, 2), p2 = s.in(1, 2); for (auto [e, nm] : {std::pair{gbs::KnotsCalcMode::EQUALLY_SPACED, "EQUALLY_SPACED"}, {gbs::KnotsCalcMode::CHORD_LENGTH, "CHORD_LENGTH"}}) eq(A("interpolate_cn")(Q, nv, p, p2, A("KnotsCalcMode").attr(nm)), gbs::interpolate<double, N>(Q, nv, p, p2, e), m, "surface through points"); eq(A("interpolate_cn")("Q"_a = Q, "n_poles_v"_a = nv, "p"_a = p, "q"_a = p2), gbs::interpolate<double, N>(Q, nv, p, p2, gbs::KnotsCalcMode::CHORD_LENGTH), m, "surface through points");
    auto ku = gbs::build_simple_mult_flat_knots<double>(0., 1., nu, p), kv = gbs::build_simple_mult_flat_knots<double>(0., 1., nv, p2); std::vector<double> uu, vv; for (size_t i = 0; i < nu; i++) uu.push_back(i / (nu - 1.)); for (size_t i = 0; i < nv; i++) vv.push_back(i / (nv - 1.)); std::vector<std::array<double, N>> want; py::object got; if (both([&] { got = A("build_poles")(Q, ku, kv, uu, vv, p, p2); }, [&] { auto w = gbs::build_poles<double, N>(Q, ku, kv, uu, vv, p, p2); want.assign(w.begin(), w.end()); }, "build_poles")) { double M = m; for (auto &x : want) for (auto c : x) M = std::max(M, std::abs(c)); eq(got, want, M, "build_poles"); }
    std::vector<gbs::bss_constraint<double, N>> cs; for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) cs.push_back({uu[i], vv[j], Q[i + nu * j], 0, 0}); if (both([&] { got = A("build_poles")(cs, ku, kv, p, p2); }, [&] { auto w = gbs::build_poles<double, N>(cs, ku, kv, p, p2); want.assign(w.begin(), w.end()); }, "build_poles from constraints")) { double M = m; for (auto &x : want) for (auto c : x) M = std::max(M, std::abs(c)); eq(got, want, M, "build_poles from constraints"); }
    { size_t a = s.in(int(p) + 1, int(nu)), b = s.in(int(p2) + 1, int(nv)); auto k1 = gbs::build_simple_mult_flat_knots<double>(0., 1., a, p), k2 = gbs::build_simple_mult_flat_knots<double>(0., 1., b, p2); eq(A("approx")("constraints"_a = cs, "k_flaut_u"_a = k1, "k_flaut_v"_a = k2, "p"_a = p, "q"_a = p2), gbs::approx<double, N>(cs, k1, k2, p, p2), m, "surface fitted to points"); }
    if constexpr (N == 3) { // a lattice which intersects at the same parameters
        auto line = [&](std::array<double, 3> a, std::array<double, 3> b) { return gbs::BSCurve<double, 3>({a, b}, {0., 0., 1., 1.}, 1); }; auto f = [&](double x, double y) { return std::array<double, 3>{x, y, 0.3 * x * y}; }; std::list<gbs::BSCurve<double, 3>> Lu, Lv; py::list ou, ov; for (double y : {0., 0.4, 1.}) { Lu.push_back(line(f(0, y), f(1, y))); ou.append(wrap(Lu.back())); } for (double x : {0., 0.5, 1.}) { Lv.push_back(line(f(x, 0), f(x, 1))); ov.append(wrap(Lv.back())); } auto w = gbs::gordon<double, 3>(Lu.begin(), Lu.end(), Lv.begin(), Lv.end(), 1e-6); eq(A("gordonbs")(ou, ov), w, 10, "gordonbs"); eq(A("gordonbs")("u_crv_lst"_a = ou, "v_crv_lst"_a = ov, "tol"_a = 1e-6), w, 10, "gordonbs"); }
    s.nontrivial(n > 2 && nu != nv); s.label(std::to_string(n) + " sections");
}
PBT_ARM(surface_building_1d, 40, 1500) { sbuild<1>(s); }
PBT_ARM(surface_building_2d, 40, 1500) { sbuild<2>(s); }
PBT_ARM(surface_building_3d, 60, 2000) { sbuild<3>(s); }
// curves through and near points
template <size_t N> static void fits(Src &s)
{
    size_t n = s.in(4, 9); std::vector<std::array<double, N>> P; auto r = s.bulk(); for (size_t i = 0; i < n; i++) { std::array<double, N> x; for (auto &c : x) c = r.range(-1, 1); x[0] = 2. * i + 0.3 * x[0]; P.push_back(x); } s << showp(P); double m = 1e3; std::vector<double> u{0}; for (size_t i = 1; i < n; i++) u.push_back(u.back() + r.range(0.5, 1.5)); auto mode = [&](gbs::KnotsCalcMode e) { return A("KnotsCalcMode").attr(e == gbs::KnotsCalcMode::EQUALLY_SPACED ? "EQUALLY_SPACED" : e == gbs::KnotsCalcMode::CHORD_LENGTH ? "CHORD_LENGTH" : "CENTRIPETAL"); }; auto e = s.one_of({gbs::KnotsCalcMode::EQUALLY_SPACED, gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL}); auto pe = mode(e);
    auto rnd = [&] { std::array<double, N> x; for (auto &c : x) c = r.range(-1, 1); x[0] += 2; return x; }; std::vector<gbs::constrType<double, N, 1>> Q1; std::vector<gbs::constrType<double, N, 2>> Q2; std::vector<gbs::constrType<double, N, 3>> Q3; for (auto &x : P) { auto t = rnd(), c = rnd(); Q1.push_back({x}); Q2.push_back({x, t}); Q3.push_back({x, t, c}); }
    auto ord = [&](auto f, auto... a) { py::object r; std::optional<gbs::BSCurve<double, N>> w; (void)sizeof...(a); return std::make_pair(r, w); }; (void)ord;
#define CMP(NAME, PY, CPP) { py::object r_; std::optional<gbs::BSCurve<double, N>> w_; if (both([&] { r_ = PY; }, [&] { w_ = CPP; }, NAME)) eq(r_, *w_, m, NAME); }
    CMP("interpolate_c1 points", A("interpolate_c1")(P, pe), (gbs::interpolate<double, N, 1>(Q1, e, true)));
    CMP("interpolate_c1 points, default mode", A("interpolate_c1")(P), (gbs::interpolate<double, N, 1>(Q1, gbs::KnotsCalcMode::CHORD_LENGTH, true)));
    CMP("interpolate_c1 tangents", A("interpolate_c1")("Q"_a = Q2, "mode"_a = pe), (gbs::interpolate<double, N, 2>(Q2, e, false)));
    CMP("interpolate_c1 points at u", A("interpolate_c1")(P, u), (gbs::interpolate<double, N, 1>(Q1, u, true)));
    CMP("interpolate_c1 tangents at u", A("interpolate_c1")(Q2, "u"_a = u), (gbs::interpolate<double, N, 2>(Q2, u, false)));
    CMP("interpolate_c2 tangents", A("interpolate_c2")(Q2, pe), (gbs::interpolate<double, N, 2>(Q2, e, true)));
    CMP("interpolate_c2 curvatures", A("interpolate_c2")("Q"_a = Q3, "mode"_a = pe), (gbs::interpolate<double, N, 3>(Q3, e, false)));
    CMP("interpolate_c2 tangents at u", A("interpolate_c2")(Q2, u), (gbs::interpolate<double, N, 2>(Q2, u, true)));
    CMP("interpolate_c2 curvatures at u", A("interpolate_c2")("Q"_a = Q3, "u"_a = u), (gbs::interpolate<double, N, 3>(Q3, u, false)));
    { gbs::bsc_bound<double, N> b1{0., P[0]}, b2{1., P[1]}; std::vector<gbs::bsc_constraint<double, N>> c{{0., rnd(), 1}, {0.5, rnd(), 0}, {1., rnd(), 1}}; size_t p = s.in(2, 4); CMP("interpolate constraints", A("interpolate")(b1, b2, c, p), (gbs::interpolate<double, N>(b1, b2, c, p))); }
    { auto w = gbs::build_3pt_tg_vec<double, N>(P, u); std::vector<std::array<double, N>> x(w.begin(), w.end()); eq(A("build_3pt_tg_vec")("pts"_a = P, "u"_a = u), x, 10, "build_3pt_tg_vec"); }
    { size_t p = s.in(1, 3); auto k = gbs::build_simple_mult_flat_knots<double>(u, p); auto pol = [&](const auto &Q) { auto k2 = gbs::build_simple_mult_flat_knots<double>(u.front(), u.back(), n, p); (void)k; auto w = gbs::build_poles<double, N>(Q, k2, u, p); std::vector<std::array<double, N>> x(w.begin(), w.end()); return std::make_pair(k2, x); }; std::vector<std::array<double, N>> w; py::object r; auto k2 = gbs::build_simple_mult_flat_knots<double>(u.front(), u.back(), n, p); bool solvable = true; for (size_t i = 1; i + 1 < n; i++) if (!(k2[i] < u[i] && u[i] < k2[i + p + 1])) solvable = false; if (solvable) { if (both([&] { r = A("build_poles")(P, k2, u, p); }, [&] { w = pol(P).second; }, "build_poles")) { double M = m; for (auto &x : w) for (auto c : x) M = std::max(M, std::abs(c)); if (M < 1e6) eq(r, w, M, "build_poles"); } std::vector<gbs::constrPoint<double, N>> q; py::list lq; for (size_t i = 0; i < n; i++) { q.push_back({P[i], u[i], 0}); lq.append(A("constrPoint" + sfx(N))("pt"_a = P[i], "u"_a = u[i], "d"_a = 0)); } std::vector<std::array<double, N>> w2; if (both([&] { r = A("build_poles")(lq, k2, p); }, [&] { auto t = gbs::build_poles<double, N>(q, k2, p); w2.assign(t.begin(), t.end()); }, "build_poles of constraint points")) { double M = m; for (auto &x : w2) for (auto c : x) M = std::max(M, std::abs(c)); if (M < 1e6) eq(r, w2, M, "build_poles of constraint points"); } } }
    // fits
    size_t deg = s.in(2, 3), np = s.in(int(deg) + 1, int(n)); std::vector<std::array<double, N>> F; for (int i = 0; i < 40; i++) { std::array<double, N> x; for (size_t d = 0; d < N; d++) x[d] = d ? std::sin(0.1 * i * (1 + d) + r.range(0, 0.01)) : 0.2 * i; F.push_back(x); } auto uf = gbs::curve_parametrization<double, N>(F, gbs::KnotsCalcMode::CHORD_LENGTH, true); size_t npf = s.in(int(deg) + 1, 12); m = 1e5;
    CMP("approx points", A("approx")(P, deg), (gbs::approx<double, N>(P, deg, gbs::KnotsCalcMode::CHORD_LENGTH, true, 1e-3, 1e-4, 200, false)));
    { bool fb = s.chance(1, 2), ad = s.chance(1, 2); double dm = s.real(0.01, 0.5), da = dm / 5; size_t nm = s.in(6, 30); CMP("approx points with tolerances", A("approx")(F, deg, "mode"_a = pe, "fix_bound"_a = fb, "d_max"_a = dm, "d_avg"_a = da, "n_max"_a = nm, "adimensionnal"_a = ad), (gbs::approx<double, N>(F, deg, e, fb, dm, da, nm, ad))); CMP("approx n_poles", A("approx")(F, deg, "n_poles"_a = npf, "mode"_a = pe, "adimensionnal"_a = ad), (gbs::approx<double, N>(F, deg, npf, e, ad))); CMP("approx n_poles at u", A("approx")(F, deg, npf, uf, "fix_bound"_a = fb), (gbs::approx<double, N>(F, deg, npf, uf, fb))); CMP("approx at u", A("approx")(F, uf, deg, "fix_bound"_a = fb, "d_max"_a = dm, "d_avg"_a = da, "n_max"_a = nm), (gbs::approx<double, N>(F, uf, deg, fb, dm, da, nm))); }
    { auto k = gbs::build_simple_mult_flat_knots<double>(0., 1., npf, deg); CMP("approx_bound_fixed", A("approx_bound_fixed")("pts"_a = F, "p"_a = deg, "n_poles"_a = npf, "u"_a = uf, "k_flat"_a = k), (gbs::approx_bound_fixed<double, N>(F, deg, npf, uf, k))); }
    { auto c = gbs::interpolate<double, N>(P, u, std::min<size_t>(3, n - 1)); const gbs::Curve<double, N> &g = c; auto o = wrap(c); double dev = s.real(0.01, 0.1); CMP("approx curve", A("approx")(o, dev, 1e-3, deg), (gbs::approx<double, N>(g, dev, 1e-3, deg, size_t(30)))); CMP("approx curve, poles", A("approx")(o, "deviation"_a = dev, "tol"_a = 1e-3, "p"_a = deg, "n_poles"_a = np + 4), (gbs::approx<double, N>(g, dev, 1e-3, deg, np + 4, size_t(30)))); CMP("approx curve, part", A("approx")(o, "u1"_a = u[1], "u2"_a = u[2], "deviation"_a = dev, "tol"_a = 1e-3, "p"_a = deg), (gbs::approx<double, N>(g, u[1], u[2], dev, 1e-3, deg, size_t(30)))); CMP("approx curve, uniform", A("approx")(o, deg, 40), (gbs::approx<double, N>(g, deg, size_t(40))));
      std::function<std::array<double, N>(const std::array<double, N> &)> f = [](const std::array<double, N> &x) { auto y = x; y[0] = 2 * y[0] + 1; return y; }; py::cpp_function pf([](py::object x) { std::vector<double> y = x.cast<std::vector<double>>(); y[0] = 2 * y[0] + 1; return y; }); CMP("approx of an image of a curve", A("approx")(o, pf, dev, 1e-3, deg), (gbs::approx<double, N>(g, f, dev, 1e-3, deg, size_t(30)))); }
    s.nontrivial(); s.label(sfx(N));
}
PBT_ARM(fits_1d, 40, 1500) { fits<1>(s); }
PBT_ARM(fits_2d, 40, 1500) { fits<2>(s); }
PBT_ARM(fits_3d, 40, 1500) { fits<3>(s); }
// shapes edited to meet constraints
template <size_t N> static void shaping(Src &s)
{
    auto k = gcrv<N, false>(s, 3, 4, 4); DISCARD_IF(k.K.has_multiple()); auto c = k.make(); double m = 1e3 * k.scale(), a = k.K.lo(), L = k.K.hi() - a, u = a + L * s.real(0.2, 0.8); auto o = wrap(c); bool fb = s.chance(1, 2); auto pt = k.val(u); for (auto &x : pt) x += s.sym(1); s << "p=" << k.K.p << " " << show(k.K.flat) << showp(k.P); std::vector<gbs::bsc_constraint<double, N>> cs{{u, pt, 0}}; if (s.chance(1, 2)) { auto t = c(u, 1); t[0] += 0.3; cs.push_back({u, t, 1}); }
    CMP("moved_to_point", A("moved_to_point")(o, pt, u, "fix_bounds"_a = fb), (gbs::moved_to_point<double, N>(c, pt, u, fb))); CMP("moved_to_point, default", A("moved_to_point")("curve"_a = o, "pt"_a = pt, "u"_a = u), (gbs::moved_to_point<double, N>(c, pt, u, false))); CMP("moved_to_constraints", A("moved_to_constraints")(o, cs, fb), (gbs::moved_to_constraints<double, N>(c, cs, fb))); CMP("moved_to_constraints, default", A("moved_to_constraints")("crv"_a = o, "constraints"_a = cs), (gbs::moved_to_constraints<double, N>(c, cs, false)));
    { auto [i1, i2] = gbs::find_span_range<double, N>(c, cs); auto q = A("find_span_range")("crv"_a = o, "constraints"_a = cs).template cast<std::pair<size_t, size_t>>(); REQUIRE(q.first == i1 && q.second == i2); auto d = gbs::convert_constraints_to_delta<double, N>(c, cs); auto pd = A("convert_constraints_to_delta")(o, cs).template cast<std::vector<gbs::bsc_constraint<double, N>>>(); REQUIRE(pd.size() == d.size()); for (size_t i = 0; i < d.size(); i++) { same(std::get<0>(pd[i]), std::get<0>(d[i]), 10, "delta u"); same(std::get<1>(pd[i]), std::get<1>(d[i]), m, "delta"); REQUIRE(std::get<2>(pd[i]) == std::get<2>(d[i])); } size_t a1 = i1, a2 = i2; CMP("moved_to_constraints_delta", A("moved_to_constraints_delta")(o, pd, a1, a2), (gbs::moved_to_constraints_delta<double, N>(c, d, a1, a2))); }
    eq(o, c, m, "the curve itself"); { auto t = wrap(c); auto d = c; if (s.chance(1, 2)) { A("move_to_point")(t, pt, u, fb); gbs::move_to_point<double, N>(d, pt, u, fb); } else { A("move_to_constraints")(t, cs, "fix_bounds"_a = fb); gbs::move_to_constraints<double, N>(d, cs, fb); } eq(t, d, m, "edited in place"); }
    if constexpr (N == 3) { auto S = gsrf<false>(s, 2, 3, true, 1); auto g = S.make(); double v = s.real(0.2, 0.8), w = s.real(0.2, 0.8); auto q = g(v, w); q[2] += 0.5; std::vector<gbs::bss_constraint<double, 3>> sc{{v, w, q, 0, 0}}; auto os = wrap(g); size_t n1 = S.U.n() - 1, n2 = S.V.n() - 1;
#define CMPS(NAME, PY, CPP) { py::object r_; std::optional<gbs::BSSurface<double, 3>> w_; if (both([&] { r_ = PY; }, [&] { w_ = CPP; }, NAME)) eq(r_, *w_, 1e4 + m, NAME); }
        CMPS("surface moved_to_point", A("moved_to_point")(os, q, v, w, "fix_bounds"_a = fb), (gbs::moved_to_point<double, 3>(g, q, v, w, fb))); CMPS("surface moved_to_point, default", A("moved_to_point")("srf"_a = os, "pt"_a = q, "u"_a = v, "v"_a = w), (gbs::moved_to_point<double, 3>(g, q, v, w, false))); CMPS("surface moved_to_constraints", A("moved_to_constraints")(os, sc, fb), (gbs::moved_to_constraints<double, 3>(g, sc, fb))); std::vector<gbs::bss_constraint<double, 3>> sd{{v, w, {0.1, 0.2, 0.3}, 0, 0}}; CMPS("surface moved_to_constraints_delta", A("moved_to_constraints_delta")(os, sd, 0, n1, 0, n2), (gbs::moved_to_constraints_delta<double, 3>(g, sd, 0, n1, 0, n2))); eq(os, g, 100, "the surface itself"); auto d = g; A("move_to_point")(os, q, v, w, fb); gbs::move_to_point<double, 3>(d, q, v, w, fb); eq(os, d, 1e4, "surface edited in place"); }
    s.nontrivial(cs.size() > 1); s.label(fb ? "ends fixed" : "ends free");
}
PBT_ARM(shaping_1d, 40, 1500) { shaping<1>(s); }
PBT_ARM(shaping_2d, 40, 1500) { shaping<2>(s); }
PBT_ARM(shaping_3d, 60, 2000) { shaping<3>(s); }
PBT_ARM(projections, 60, 2000)
{
    auto S = gsrf<false>(s, 2, 3, true, 1); auto g = S.make(); const gbs::Surface<double, 3> &G1 = g; auto o = wrap(g); double u = s.real(0.1, 0.9), v = s.real(0.1, 0.9); auto P = S.val(u, v); P[2] += 0.05; s << "p=" << S.U.p << "," << S.V.p << " U " << show(S.U.flat) << " V " << show(S.V.flat) << " u=" << u << " v=" << v; double m = 1e3; auto a3 = [](const auto &x) { return std::array<double, 3>{x[0], x[1], x[2]}; };
    eq(A("extrema_surf_pnt")(o, P, 0.5, 0.5, "tol_x"_a = 1e-6), a3(gbs::extrema_surf_pnt<double, 3>(G1, P, 0.5, 0.5, 1e-6)), m, "extrema_surf_pnt from a start"); eq(A("extrema_surf_pnt")(o, "pnt"_a = P, "tol_x"_a = 1e-6, "n_bracket_u"_a = 12, "n_bracket_v"_a = 7), a3(gbs::extrema_surf_pnt<double, 3>(G1, P, 1e-6, gbs::default_nlopt_algo, 12, 7)), m, "extrema_surf_pnt"); eq(A("extrema_surf_pnt")(o, P), a3(gbs::extrema_surf_pnt<double, 3>(G1, P, 1e-6)), m, "extrema_surf_pnt, default");
    gbs::BSCurve<double, 3> c({{P[0], P[1], P[2] + 1}, {P[0] + 0.1, P[1] + 0.1, P[2]}, {P[0], P[1] + 0.05, P[2] - 1}}, {0., 0., 0., 1., 1., 1.}, 2); const gbs::Curve<double, 3> &C1 = c; auto oc = wrap(c); eq(A("extrema_surf_curve")(o, oc, 1e-6, "n_bracket_u"_a = 5, "n_bracket_v"_a = 6, "n_bracket_w"_a = 7), [&] { auto x = gbs::extrema_surf_curve<double, 3>(G1, C1, 1e-6, gbs::default_nlopt_algo, 5, 6, 7); return std::array<double, 4>{x[0], x[1], x[2], x[3]}; }(), m, "extrema_surf_curve"); eq(A("extrema_surf_curve")("srf"_a = o, "crv"_a = oc, "u_c0"_a = 0.3, "u_s0"_a = u, "v_s0"_a = v, "tol_x"_a = 1e-6), [&] { auto x = gbs::extrema_surf_curve<double, 3>(G1, C1, 0.3, u, v, 1e-6); return std::array<double, 4>{x[0], x[1], x[2], x[3]}; }(), m, "extrema_surf_curve from a start");
    auto k = gcrv<3, false>(s, 2, 3, 2); auto c2 = k.make(); const gbs::Curve<double, 3> &C2 = c2; auto o2 = wrap(c2); eq(A("extrema_curve_curve")(oc, o2, "tol_x"_a = 1e-6, "n_bracket_u"_a = 9, "n_bracket_v"_a = 6), a3(gbs::extrema_curve_curve<double, 3>(C1, C2, 1e-6, gbs::default_nlopt_algo, 9, 6)), m, "extrema_curve_curve"); double t = k.K.lo() + 0.4 * (k.K.hi() - k.K.lo()); eq(A("extrema_curve_curve")(oc, o2, 0.3, t, 1e-6), a3(gbs::extrema_curve_curve<double, 3>(C1, C2, 0.3, t, 1e-6)), m, "extrema_curve_curve from a start"); eq(A("extrema_curve_curve")(oc, o2), a3(gbs::extrema_curve_curve<double, 3>(C1, C2, 1e-6)), m, "extrema_curve_curve, default");
    { std::vector<std::array<double, 3>> pts{P, S.val(v, u)}; auto w = pts; for (auto &x : w) { auto r = gbs::extrema_surf_pnt<double, 3>(G1, x, 1e-6); x = g(r[0], r[1]); } (void)w; std::vector<std::array<double, 3>> q = pts; gbs::points_vector<double, 3> cp(pts.begin(), pts.end()); }
    std::array<double, 2> a{s.sym(2), s.sym(2)}, b{s.sym(2), s.sym(2)}, d{s.sym(2), s.sym(2)}, f{s.sym(2), s.sym(2)}; DISCARD_IF(std::abs((b[0] - a[0]) * (f[1] - d[1]) - (b[1] - a[1]) * (f[0] - d[0])) < 0.1); auto r = A("extrema_curve_curve")(A("Line2d")(a, b), A("Line2d")(d, f)); gbs::Line<double, 2> l1(a, b), l2(d, f); auto w = gbs::extrema_curve_curve<double>(l1, l2); std::vector<double> wv(w.begin(), w.end()); eq(r, wv, m, "crossing lines"); s.nontrivial(); s.label("extrema");
}
PBT_ARM(meshes, 60, 2000)
{
    G(); // a lattice of straight lines seen through a smooth map, and its meshes
    size_t n1 = s.in(2, 4), n2 = s.in(2, 4); auto r = s.bulk(); double cx = r.range(-0.3, 0.3), cy = r.range(-0.3, 0.3); auto f = [&](double x, double y) { return std::array<double, 2>{x + cx * x * y, y + cy * x * y}; }; std::vector<double> ks, et; for (size_t i = 0; i < n1; i++) et.push_back(i ? et.back() + r.range(0.5, 1.5) : r.range(-1, 1)); for (size_t i = 0; i < n2; i++) ks.push_back(i ? ks.back() + r.range(0.5, 1.5) : r.range(-1, 1)); std::vector<std::shared_ptr<gbs::Curve<double, 2>>> L1, L2; std::vector<std::shared_ptr<gbs::Curve<double, 3>>> M1, M2; py::list o1, o2, q1, q2; auto seg = [&](auto a, auto b, double x, double y) { constexpr size_t N = std::tuple_size_v<decltype(a)>; return gbs::BSCurve<double, N>(std::vector<std::array<double, N>>{a, b}, {x, x, y, y}, 1); }; auto up = [&](std::array<double, 2> p) { return std::array<double, 3>{p[0], p[1], 0.2 * p[0] - p[1]}; };
    for (auto y : et) { auto a = f(ks.front(), y), b = f(ks.back(), y); auto c = seg(a, b, ks.front(), ks.back()); L1.push_back(std::make_shared<gbs::BSCurve<double, 2>>(c)); o1.append(wrap(c)); auto c3 = seg(up(a), up(b), ks.front(), ks.back()); M1.push_back(std::make_shared<gbs::BSCurve<double, 3>>(c3)); q1.append(wrap(c3)); } for (auto x : ks) { auto a = f(x, et.front()), b = f(x, et.back()); auto c = seg(a, b, et.front(), et.back()); L2.push_back(std::make_shared<gbs::BSCurve<double, 2>>(c)); o2.append(wrap(c)); auto c3 = seg(up(a), up(b), et.front(), et.back()); M2.push_back(std::make_shared<gbs::BSCurve<double, 3>>(c3)); q2.append(wrap(c3)); }
    s << show(ks) << show(et); size_t nk = s.in(int(n2) * 2, 14), ne = s.in(int(n1) * 2, 14); auto pts = [](const auto &x) { return std::get<0>(x); }; double m = 100;
    auto cmp = [&](const char *nm, auto py_, auto cpp) { py::object a; std::optional<decltype(cpp())> b; if (both([&] { a = py_(); }, [&] { b.emplace(cpp()); }, nm)) { auto w = pts(*b); using V = std::vector<typename std::decay_t<decltype(w)>::value_type>; eq(a[py::int_(0)], V(w.begin(), w.end()), m, nm); eq(a[py::int_(1)], size_t(std::get<1>(*b)), 0, nm); eq(a[py::int_(2)], size_t(std::get<2>(*b)), 0, nm); } };
    cmp("tfi_mesh 2d", [&] { return A("tfi_mesh")(o1, o2, nk, ne, 1e-4); }, [&] { return gbs::tfi_mesh_2d<double, 2, 1, 1, true>(L1, L2, nk, ne, 1e-4); }); cmp("tfi_mesh 3d", [&] { return A("tfi_mesh")("iso_ksi"_a = q1, "iso_eth"_a = q2, "n_ksi"_a = nk, "n_eth"_a = ne, "tol"_a = 1e-4); }, [&] { return gbs::tfi_mesh_2d<double, 3, 1, 1, true>(M1, M2, nk, ne, 1e-4); });
    { auto S = gsrf<false>(s, 2, 3, true, 1); auto g = std::make_shared<gbs::BSSurface<double, 3>>(S.make()); std::shared_ptr<gbs::Surface<double, 3>> gs = g; std::vector<double> a{0, 0.4, 1}, b{0, 1}; cmp("tfi_mesh on a surface", [&] { return A("tfi_mesh")(py::cast(g), a, b, nk, ne); }, [&] { return gbs::tfi_mesh_2d<double, 3, 1, 1, true>(gs, a, b, nk, ne); }); }
    // smoothing of a perturbed grid
    size_t ni = s.in(3, 7), nj = s.in(3, 7), it = s.in(1, 12); std::vector<std::array<double, 2>> X; for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) { std::array<double, 2> x{double(i), double(j)}; if (i && j && i + 1 < ni && j + 1 < nj) { x[0] += r.range(-0.4, 0.4); x[1] += r.range(-0.4, 0.4); } X.push_back(x); } double tol = s.one_of({1e-4, 1e-2, 1e-8}); gbs::points_vector<double, 2> Y(X.begin(), X.end()); gbs::elliptic_structured_smoothing<double>(Y, nj, 0, ni - 1, 0, nj - 1, it, tol); s << " smoothing " << ni << "x" << nj << " " << it << " iterations"; eq(A("elliptic_structured_smoothing")(X, nj, 0, ni - 1, 0, nj - 1, it, tol), std::vector<std::array<double, 2>>(Y.begin(), Y.end()), 10, "elliptic_structured_smoothing"); Y.assign(X.begin(), X.end()); gbs::elliptic_structured_smoothing<double>(Y, nj, 0, ni - 1, 0, nj - 1, it, 1e-4); eq(A("elliptic_structured_smoothing")("pts"_a = X, "nj"_a = nj, "i1"_a = 0, "i2"_a = ni - 1, "j1"_a = 0, "j2"_a = nj - 1, "n_it"_a = it), std::vector<std::array<double, 2>>(Y.begin(), Y.end()), 10, "elliptic_structured_smoothing, default tolerance");
    s.nontrivial(n1 != n2); s.label("meshes");
}
