#include "gen.h"
#include "shapes.h"
#include <unistd.h>
#include <sys/stat.h>
#include <gbs/surfaceofrevolution.h>
#include <gbs/curveonsurface.h>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>
#include <gbs-io/fromtext.h>
const char *pbt_property = "P15";
const char *pbt_rule = "random curves and surfaces of every serialisable kind written to JSON text (in memory or through a file) and read back, legacy documents, mutated documents, point files; oracle: the object itself, compared field by field to a few units in the last place and point by point, the direct construction for legacy documents, rejection by exception for mutations; non-trivial: several spans, degree >= 2 or a mutation";
using J = rapidjson::Value; using D = rapidjson::Document;
static std::string text(const J &v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); REQUIRE(v.Accept(w)); return b.GetString(); }
static std::string scratch_dir;
static std::string scratch() { auto &d = scratch_dir; if (d.empty()) { char t[] = "/tmp/p15_XXXXXX"; char *p = mkdtemp(t); REQUIRE(p); d = p; } return d; }
// to text and back, sometimes through a file
static void trip(Src &s, const J &v, D &out)
{
    if (s.chance(1, 4))
    {
        std::string dir = scratch(), f = dir + "/a.json"; D d; d.CopyFrom(v, d.GetAllocator()); gbs::write_js_doc(d, f.c_str()); gbs::parse_file(f.c_str(), out); unlink(f.c_str());
        bool t = false; try { D e; gbs::parse_file((dir + "/absent.json").c_str(), e); } catch (std::runtime_error &) { t = true; } REQUIRE_MSG(t, "missing file accepted"); s.label("file");
    }
    else { auto t = text(v); out.Parse(t.data()); }
    REQUIRE(!out.HasParseError());
}
struct Rm { ~Rm() { if (scratch_dir.empty()) return; unlink((scratch_dir + "/a.json").c_str()); unlink((scratch_dir + "/p.txt").c_str()); rmdir(scratch_dir.c_str()); scratch_dir.clear(); } };
// equal documents, numbers up to the accuracy of the reader
static bool alike(const J &a, const J &b)
{
    if (a.IsNumber() && b.IsNumber()) return std::abs(a.GetDouble() - b.GetDouble()) <= 8 * 2.2e-16 * std::abs(a.GetDouble()) + 1e-300;
    if (a.GetType() != b.GetType()) return false;
    if (a.IsArray()) { if (a.Size() != b.Size()) return false; for (size_t i = 0; i < a.Size(); i++) if (!alike(a[i], b[i])) return false; return true; }
    if (a.IsObject()) { if (a.MemberCount() != b.MemberCount()) return false; for (auto &m : a.GetObject()) if (!b.HasMember(m.name) || !alike(m.value, b[m.name])) return false; return true; }
    return a == b;
}
static const double ulp = 8 * 2.2e-16; // the reader of doubles is allowed 3 units in the last place
template <typename A, typename B> static void vec(const A &a, const B &b, const char *what, double k = 1) { REQUIRE_MSG(a.size() == b.size(), what << ": " << a.size() << " and " << b.size()); for (size_t i = 0; i < a.size(); i++) REQUIRE_MSG(std::abs(a[i] - b[i]) <= k * ulp * std::abs(a[i]) + 1e-300, what << " " << i << ": " << a[i] << " and " << b[i]); }
template <typename T, size_t N> static void pts(const std::vector<std::array<T, N>> &a, const std::vector<std::array<T, N>> &b, const char *what, double k = 1) { REQUIRE(a.size() == b.size()); for (size_t i = 0; i < a.size(); i++) vec(a[i], b[i], what, k); }
template <size_t N> static void wild(Src &s, std::vector<std::array<double, N>> &P, bool rat) { if (s.chance(1, 4)) for (auto &x : P) { double f = std::pow(10., s.in(-12, 12)); for (size_t c = 0; c < N - rat; c++) x[c] *= f; } }
template <size_t N, bool rat> static void same_curve(const typename Crv<N, rat>::C &a, const typename Crv<N, rat>::C &b)
{
    REQUIRE(a.degree() == b.degree()); vec(a.knotsFlats(), b.knotsFlats(), "knot"); pts(a.poles(), b.poles(), "pole", rat ? 3 : 1);
}
template <size_t N, bool rat> static void curve(Src &s)
{
    Rm rm; auto c = gcrv<N, rat>(s, 1, 6, 5); wild<N + rat>(s, c.P, rat); auto C = c.make(); s << "p=" << c.K.p << " knots=" << show(c.K.flat) << " poles=" << showp(c.P, 8);
    D d; auto v = gbs::make_json(C, d.GetAllocator()); D r; trip(s, v, r);
    REQUIRE(r["type"].GetInt() == (rat ? 126 : 125) && r["dim"].GetUint64() == N && r["degree"].GetUint64() == c.K.p);
    auto p = gbs::make_curve<double, N>(r); auto *q = dynamic_cast<typename Crv<N, rat>::C *>(p.get()); REQUIRE(q); same_curve<N, rat>(C, *q);
    if constexpr (!rat) { same_curve<N, rat>(C, gbs::make_bscurve<double, N>(r)); same_curve<N, rat>(C, gbs::bscurve_direct<double, N>(r)); same_curve<N, rat>(C, gbs::bscurve_direct_mults<double, N>(r)); }
    else { auto w = gbs::make_vec<double>(r["weights"]); vec(C.weights(), w, "weight"); pts(C.polesProjected(), gbs::make_point_vec<double, N>(r["poles"]), "cartesian pole", 1); bool t = false; try { gbs::make_bscurve<double, N>(r); } catch (std::invalid_argument &) { t = true; } REQUIRE(t); }
    // by pointer to base
    std::shared_ptr<gbs::Curve<double, N>> base = std::make_shared<typename Crv<N, rat>::C>(C); auto v2 = gbs::make_json(base, d.GetAllocator()); REQUIRE(text(v) == text(v2));
    // a second trip changes nothing more than rounding
    auto v3 = gbs::make_json(*q, d.GetAllocator()); D r3; auto t3 = text(v3); r3.Parse(t3.data()); auto p3 = gbs::make_curve<double, N>(r3); same_curve<N, rat>(*q, *dynamic_cast<typename Crv<N, rat>::C *>(p3.get()));
    s.nontrivial(c.K.p >= 2 || c.K.brk.size() > 2);
}
PBT_ARM(curve_d1, 200, 6000) { curve<1, false>(s); }
PBT_ARM(curve_d2, 200, 6000) { curve<2, false>(s); }
PBT_ARM(curve_d3, 300, 6000) { curve<3, false>(s); }
PBT_ARM(curve_rational_d2, 300, 6000) { curve<2, true>(s); }
PBT_ARM(curve_rational_d3, 300, 6000) { curve<3, true>(s); }
template <bool rat> static void same_surface(const typename Srf<rat>::S &a, const typename Srf<rat>::S &b)
{
    REQUIRE(a.degreeU() == b.degreeU() && a.degreeV() == b.degreeV()); vec(a.knotsFlatsU(), b.knotsFlatsU(), "knot u"); vec(a.knotsFlatsV(), b.knotsFlatsV(), "knot v"); pts(a.poles(), b.poles(), "pole", rat ? 3 : 1);
}
template <bool rat> static void surface(Src &s)
{
    Rm rm; auto c = gsrf<rat>(s, 1, 4, false); wild<3 + rat>(s, c.P, rat); auto S = c.make(); s << "ku=" << show(c.U.flat) << " kv=" << show(c.V.flat);
    D d; auto v = gbs::make_json(S, d.GetAllocator()); D r; trip(s, v, r); REQUIRE(r["type"].GetInt() == (rat ? 128 : 127) && r["dim"].GetUint64() == 3);
    auto p = gbs::make_surface<double, 3>(r); auto *q = dynamic_cast<typename Srf<rat>::S *>(p.get()); REQUIRE(q); same_surface<rat>(S, *q);
    auto p1 = gbs::make_surface<double>(r); same_surface<rat>(S, *dynamic_cast<typename Srf<rat>::S *>(p1.get()));
    if constexpr (!rat) same_surface<rat>(S, gbs::make_bssurface<double, 3>(r));
    std::shared_ptr<gbs::Surface<double, 3>> base = std::make_shared<typename Srf<rat>::S>(S); REQUIRE(text(v) == text(gbs::make_json(base, d.GetAllocator())));
    s.nontrivial(c.U.p != c.V.p || c.U.brk.size() > 2);
}
PBT_ARM(surface_poly, 300, 6000) { surface<false>(s); }
PBT_ARM(surface_rational, 300, 6000) { surface<true>(s); }
// composed shapes: what is read back has the same points; what cannot be read is at least written entirely
PBT_ARM(composed, 300, 8000)
{
    Rm rm; D d; auto &al = d.GetAllocator(); auto srf = gsrf<false>(s, 1, 3, false); auto srr = gsrf<true>(s, 1, 3, false); auto c2 = gcrv<2, false>(s, 1, 4, 3); auto c2r = gcrv<2, true>(s, 1, 4, 3); bool rs = s.chance(1, 2), rc = s.chance(1, 2);
    auto squeeze = [&](auto &c, double a, double b, double e, double f) { double m[2] = {1e300, 1e300}, M[2] = {-1e300, -1e300}; bool rat = c.P[0].size() == 3; for (auto &x : c.P) for (int k = 0; k < 2; k++) { double y = x[k] / (rat ? x.back() : 1); m[k] = std::min(m[k], y); M[k] = std::max(M[k], y); } double lo[2] = {a, e}, hi[2] = {b, f}; for (auto &x : c.P) for (int k = 0; k < 2; k++) { double w = rat ? x.back() : 1, y = x[k] / w; x[k] = w * (M[k] > m[k] ? lo[k] + (hi[k] - lo[k]) * (0.01 + 0.98 * (y - m[k]) / (M[k] - m[k])) : lo[k]); } };
    auto &U = rs ? srr.U : srf.U; auto &V = rs ? srr.V : srf.V; squeeze(c2, U.lo(), U.hi(), V.lo(), V.hi()); squeeze(c2r, U.lo(), U.hi(), V.lo(), V.hi());
    std::shared_ptr<gbs::Surface<double, 3>> S; if (rs) S = std::make_shared<gbs::BSSurfaceRational<double, 3>>(srr.make()); else S = std::make_shared<gbs::BSSurface<double, 3>>(srf.make());
    std::shared_ptr<gbs::Curve<double, 2>> C; if (rc) C = std::make_shared<gbs::BSCurveRational<double, 2>>(c2r.make()); else C = std::make_shared<gbs::BSCurve<double, 2>>(c2.make());
    auto b = C->bounds(); s << (rs ? "rational surface " : "surface ") << (rc ? "rational curve" : "curve");
    gbs::CurveOnSurface<double, 3> cs(C, S); D r; trip(s, gbs::make_json(cs, al), r); auto q = gbs::make_curve<double, 3>(r); REQUIRE((dynamic_cast<gbs::CurveOnSurface<double, 3> *>(q.get()))); auto qb = q->bounds(); REQUIRE(std::abs(qb[0] - b[0]) < 1e-13 * (1 + std::abs(b[0])) && std::abs(qb[1] - b[1]) < 1e-13 * (1 + std::abs(b[1])));
    for (int k = 0; k < 4; k++) { double u = std::min(std::max(b[0] + (b[1] - b[0]) * s.unit(), qb[0]), qb[1]); near<3>(q->value(u), cs.value(u), 1e-8 * (srf.scale() + srr.scale()), "point", u); }
    { std::shared_ptr<gbs::Curve<double, 3>> base = std::make_shared<gbs::CurveOnSurface<double, 3>>(cs); REQUIRE(text(gbs::make_json(base, al)) == text(gbs::make_json(cs, al))); }
    // surface of revolution
    double a1 = s.real(0, 3), a2 = a1 + s.real(0.1, 3); gbs::ax2<double, 3> ax{{{s.sym(3), s.sym(3), s.sym(3)}, {0, 0, s.one_of({1., -1.})}, {1, 0, 0}}};
    gbs::SurfaceOfRevolution<double> sr(C, ax, a1, a2); D r2; trip(s, gbs::make_json(sr, al), r2); auto g = gbs::make_surface<double>(r2); REQUIRE(dynamic_cast<gbs::SurfaceOfRevolution<double> *>(g.get())); vec(sr.bounds(), g->bounds(), "bound");
    for (int k = 0; k < 4; k++) { double u = std::min(b[0] + (b[1] - b[0]) * s.unit(), g->bounds()[1]), v = a1 + (a2 - a1) * s.unit(); near<3>(g->value(u, v), sr.value(u, v), 1e-9 * (10 + srf.scale() + srr.scale()), "revolution", u); }
    { std::shared_ptr<gbs::Surface<double, 3>> base = std::make_shared<gbs::SurfaceOfRevolution<double>>(sr); REQUIRE(text(gbs::make_json(base, al)) == text(gbs::make_json(sr, al))); }
    // written only
    double t1 = b[0] + 0.2 * (b[1] - b[0]), t2 = b[0] + 0.7 * (b[1] - b[0]); auto ct = std::make_shared<gbs::CurveTrimmed<double, 2>>(C, t1, t2); D r3; trip(s, gbs::make_json(*ct, al), r3);
    REQUIRE(r3["type"].GetInt() == 136 && std::abs(r3["u1"].GetDouble() - t1) <= ulp * std::abs(t1) && std::abs(r3["u2"].GetDouble() - t2) <= ulp * std::abs(t2) && alike(r3["curve"], gbs::make_json(C, al)));
    auto other = std::make_shared<gbs::BSCurve<double, 2>>(c2.make()); std::vector<std::shared_ptr<gbs::Curve<double, 2>>> L{C, other, ct}; gbs::CurveComposite<double, 2> cc(L); D r4; trip(s, gbs::make_json(cc, al), r4); REQUIRE(r4["type"].GetInt() == 137 && r4["curves"].Size() == 3); for (int k = 0; k < 3; k++) REQUIRE(alike(r4["curves"][k], gbs::make_json(L[k], al)));
    auto f1 = gcrv<1, false>(s, 1, 3, 2); gbs::BSCfunction<double> F(f1.make()); gbs::CurveOffset2D<double, gbs::BSCfunction<double>> off(C, F); D r5; trip(s, gbs::make_json(off, al), r5); REQUIRE(r5["type"].GetInt() == 138 && r5["function"]["type"].GetInt() == 25 && alike(r5["curve"], gbs::make_json(C, al))); auto fc = gbs::make_curve<double, 1>(r5["function"]["curve"]); same_curve<1, false>(f1.make(), *dynamic_cast<gbs::BSCurve<double, 1> *>(fc.get()));
    std::array<double, 3> A{s.sym(5), s.sym(5), s.sym(5)}, B{s.sym(5) + 11, s.sym(5), s.sym(5)}; gbs::Line<double, 3> ln(A, B); D r6; trip(s, gbs::make_json(ln, al), r6); vec(ln.getAx()[0], gbs::make_array<double, 3>(r6["p1"]), "line"); vec(ln.getAx()[1], gbs::make_array<double, 3>(r6["p2"]), "line");
    for (auto *x : {&r3, &r4, &r5}) { bool t = false; try { gbs::make_curve<double, 2>(*x); } catch (std::invalid_argument &) { t = true; } REQUIRE_MSG(t, "unsupported kind accepted"); }
    s.nontrivial();
}
// documents written by hand
PBT_ARM(legacy, 300, 6000)
{
    Rm rm; D d; auto &al = d.GetAllocator(); auto c = gcrv<2, false>(s, 1, 4, 4); auto C = c.make(); auto arr = [&](const auto &v) { J a(rapidjson::kArrayType); for (auto x : v) a.PushBack(x, al); return a; };
    auto ptv = [&](const auto &v) { J a(rapidjson::kArrayType); for (auto &x : v) a.PushBack(arr(x), al); return a; };
    J o(rapidjson::kObjectType); o.AddMember("type", "bscurve", al); o.AddMember("deg", uint64_t(c.K.p), al); o.AddMember("knots", arr(c.K.flat), al); o.AddMember("poles", ptv(c.P), al); D r; trip(s, o, r); same_curve<2, false>(C, gbs::make_bscurve<double, 2>(r));
    size_t n = s.in(5, 12), p = s.in(1, 4); auto g = s.bulk(); gbs::points_vector<double, 2> Q(n), T(n); for (size_t i = 0; i < n; i++) { Q[i] = {double(i) + g.range(-0.3, 0.3), g.range(-2, 2)}; T[i] = {1 + g.unit(), g.range(-1, 1)}; } std::vector<double> u(n); u[0] = g.range(-1, 1); for (size_t i = 1; i < n; i++) u[i] = u[i - 1] + g.range(0.3, 1);
    s << n << " points, degree " << p; auto close = [&](const gbs::BSCurve<double, 2> &a, const gbs::BSCurve<double, 2> &b) { REQUIRE(a.degree() == b.degree()); REQUIRE(a.knotsFlats().size() == b.knotsFlats().size()); for (size_t i = 0; i < a.knotsFlats().size(); i++) REQUIRE(std::abs(a.knotsFlats()[i] - b.knotsFlats()[i]) < 1e-12); for (size_t i = 0; i < a.poles().size(); i++) for (int k = 0; k < 2; k++) REQUIRE(std::abs(a.poles()[i][k] - b.poles()[i][k]) < 1e-7 * (1 + maxabs(a.poles()))); };
    const char *modes[] = {"CHORD_LENGTH", "CENTRIPETAL", "EQUALLY_SPACED"}; gbs::KnotsCalcMode ms[] = {gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL, gbs::KnotsCalcMode::EQUALLY_SPACED}; int m = s.in(0, 2), how = s.in(0, 2);
    { J q(rapidjson::kObjectType); q.AddMember("type", "bscurve_interp_cn", al); q.AddMember("deg", uint64_t(p), al); q.AddMember("points", ptv(Q), al); if (how == 1) q.AddMember("params", arr(u), al); if (how == 2) q.AddMember("param_calc_mode", rapidjson::StringRef(modes[m]), al); D x; trip(s, q, x); close(gbs::make_bscurve<double, 2>(x), how == 1 ? gbs::interpolate<double, 2>(Q, u, p) : gbs::interpolate<double, 2>(Q, p, how == 2 ? ms[m] : gbs::KnotsCalcMode::CHORD_LENGTH)); }
    { bool two = s.chance(1, 2); J q(rapidjson::kObjectType); q.AddMember("type", "bscurve_interp", al); J cs(rapidjson::kArrayType); cs.PushBack(ptv(Q), al); if (two) cs.PushBack(ptv(T), al); q.AddMember("constraints", cs, al); if (how == 1) { q.AddMember("param_calc_mode", "SPECIFIED", al); q.AddMember("params", arr(u), al); } if (how == 2) q.AddMember("param_calc_mode", rapidjson::StringRef(modes[m]), al); D x; trip(s, q, x);
      auto mode = how == 2 ? ms[m] : gbs::KnotsCalcMode::CHORD_LENGTH; auto R = gbs::make_bscurve<double, 2>(x);
      if (two) { std::vector<gbs::constrType<double, 2, 2>> k(n); for (size_t i = 0; i < n; i++) k[i] = {Q[i], T[i]}; close(R, how == 1 ? gbs::interpolate<double, 2>(k, u) : gbs::interpolate<double, 2>(k, mode)); close(gbs::make_bscurve<double, 2>(x, u), gbs::interpolate<double, 2>(k, u)); }
      else { std::vector<gbs::constrType<double, 2, 1>> k(n); for (size_t i = 0; i < n; i++) k[i] = {Q[i]}; close(R, how == 1 ? gbs::interpolate<double, 2>(k, u) : gbs::interpolate<double, 2>(k, mode)); close(gbs::make_bscurve<double, 2>(x, u), gbs::interpolate<double, 2>(k, u)); } }
    s.nontrivial();
}
// broken documents are refused
PBT_ARM(refused, 500, 12000)
{
    Rm rm; D d; auto &al = d.GetAllocator(); bool rat = s.chance(1, 2); auto c = gcrv<2, false>(s, 1, 4, 3); auto cr = gcrv<2, true>(s, 1, 4, 3); auto S = gsrf<false>(s, 1, 3); int kind = s.in(0, 1);
    J v = kind ? gbs::make_json(S.make(), al) : rat ? gbs::make_json(cr.make(), al) : gbs::make_json(c.make(), al); int m = s.in(0, 9); s << (kind ? "surface" : rat ? "rational" : "curve") << " mutation " << m;
    const char *kn = kind ? (s.chance(1, 2) ? "knotsU" : "knotsV") : "knots", *mu = kind ? (kn[5] == 'U' ? "multsU" : "multsV") : "mults", *de = kind ? (kn[5] == 'U' ? "degreeU" : "degreeV") : "degree"; auto &P = v["poles"]; size_t i = s.draw(P.Size());
    switch (m)
    {
    case 0: P.PopBack(); break;
    case 1: P[i].PopBack(); break;
    case 2: P[i].PushBack(1.5, al); break;
    case 3: P[i][0].SetString("x"); break;
    case 4: P[i].SetNull(); break;
    case 5: v[kn].SetString("none"); break;
    case 6: v[mu][0].SetDouble(1.5); break;
    case 7: v[de].SetUint64(v[de].GetUint64() + 1); break;
    case 8: v[mu][0].SetUint64(v[mu][0].GetUint64() + 1); break;
    case 9: v["type"].SetInt(s.one_of({0, 1, 110, 136, 137, 999})); break;
    }
    D r; trip(s, v, r); bool t = false; std::string w;
    try { if (kind) gbs::make_surface<double, 3>(r); else gbs::make_curve<double, 2>(r); } catch (std::exception &e) { t = true; w = e.what(); } REQUIRE_MSG(t, "accepted " << text(v).substr(0, 300)); s.label("mutation " + std::to_string(m)); s.nontrivial();
}
// documents written by hand which do not make sense: unknown parametrisation, as many parameters as points missing, unknown kind by name
PBT_ARM(legacy_refused, 300, 6000)
{
    Rm rm; D d; auto &al = d.GetAllocator(); auto arr = [&](const auto &v) { J a(rapidjson::kArrayType); for (auto x : v) a.PushBack(x, al); return a; }; auto ptv = [&](const auto &v) { J a(rapidjson::kArrayType); for (auto &x : v) a.PushBack(arr(x), al); return a; };
    size_t n = s.in(5, 12), p = s.in(1, 4); auto g = s.bulk(); gbs::points_vector<double, 2> Q(n); for (size_t i = 0; i < n; i++) Q[i] = {double(i) + g.range(-0.3, 0.3), g.range(-2, 2)}; std::vector<double> u(n); u[0] = g.range(-1, 1); for (size_t i = 1; i < n; i++) u[i] = u[i - 1] + g.range(0.3, 1);
    bool cn = s.chance(1, 2); int how = s.in(0, 5); std::string mode = s.one_of({"CORD_LENGTH", "chord_length", "CHORD_LENGTH ", "", "CENTRIPETALE", "UNIFORM", "1"}); s << (cn ? "smooth " : "constraints ") << how << " mode '" << mode << "'";
    J q(rapidjson::kObjectType); q.AddMember("type", rapidjson::StringRef(cn ? "bscurve_interp_cn" : "bscurve_interp"), al); J pts = ptv(Q); if (how == 2) pts[s.draw(n)].PopBack(); if (how == 3) pts[s.draw(n)][0].SetString("x");
    if (cn) { q.AddMember("deg", uint64_t(p), al); q.AddMember("points", pts, al); } else { J cs(rapidjson::kArrayType); cs.PushBack(pts, al); if (how == 4) { auto T = Q; if (s.chance(1, 2)) T.pop_back(); else T.push_back(T[0]); cs.PushBack(ptv(T), al); } q.AddMember("constraints", cs, al); }
    if (how == 4 && cn) q["deg"].SetString("two"); if (how == 5) q["type"].SetString(s.one_of({"bscurve_interp_", "curve", "", "BSCURVE"}), al);
    if (how == 0) q.AddMember("param_calc_mode", J(mode.c_str(), al), al);
    if (how == 1) { if (s.chance(1, 2)) u.pop_back(); else u.push_back(u.back() + 1); if (!cn) q.AddMember("param_calc_mode", "SPECIFIED", al); q.AddMember("params", arr(u), al); }
    D x; trip(s, q, x); bool t = false; try { gbs::make_bscurve<double, 2>(x); } catch (const std::exception &) { t = true; } REQUIRE_MSG(t, "accepted " << text(q).substr(0, 300)); s.label("fault " + std::to_string(how)); s.nontrivial();
}
// files of points
PBT_ARM(point_files, 200, 5000)
{
    Rm rm; size_t n = s.in(8, 30), p = s.in(2, 4), skip = s.draw(4); auto mode = s.one_of({gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL}); char sep = s.one_of({' ', ',', ';'}); auto g = s.bulk(); gbs::points_vector<double, 3> Q(n); for (size_t i = 0; i < n; i++) Q[i] = {double(i) + g.range(-0.3, 0.3), 3 * std::sin(0.4 * i), g.range(-0.1, 0.1)};
    std::string f = scratch() + "/p.txt"; bool pad = s.chance(1, 2), crlf = s.chance(1, 3); { std::ofstream o(f); o.precision(17); for (size_t i = 0; i < skip; i++) o << "header " << i << " x y z w\n"; for (auto &x : Q) { o << (pad ? "  " : "") << x[0] << sep << (pad && sep == ' ' ? "   " : pad ? " " : "") << x[1] << sep << x[2] << (crlf ? "\r\n" : "\n"); } }
    s << n << " points '" << sep << "' skip " << skip; auto A = gbs::bscurve_approx_from_points<double, 3>(f, p, mode, skip, sep); auto B = gbs::approx(Q, p, mode, true); REQUIRE(A.degree() == B.degree() && A.knotsFlats() == B.knotsFlats() && A.poles() == B.poles());
    { std::ofstream o(f, std::ios::app); o << (s.chance(1, 2) ? std::string("1") + sep + "2\n" : std::string("1") + sep + "abc" + sep + "3\n"); } int t = 0; try { gbs::bscurve_approx_from_points<double, 3>(f, p, mode, skip, sep); } catch (std::runtime_error &) { t++; } unlink(f.c_str()); try { gbs::bscurve_approx_from_points<double, 3>(f, p, mode, skip, sep); } catch (std::runtime_error &) { t++; } REQUIRE(t == 2); s.nontrivial();
}
// every reader of a value takes the values of its type as they are, and refuses all the others
template <typename T> static bool reads(const J &v, T &x) { try { x = gbs::get_val<T>(v); return true; } catch (const std::invalid_argument &) { return false; } }
PBT_ARM(values, 600, 12000)
{
    D d; auto &al = d.GetAllocator(); int kind = s.in(0, 8); J v; double x = s.sym(1e6); int64_t i = s.in(-1000000, 1000000); std::string str = s.one_of({"", "1", "abc", "CHORD_LENGTH"}); bool neg = s.chance(1, 2), huge = s.chance(1, 2);
    switch (kind) { case 0: v.SetNull(); break; case 1: v.SetBool(neg); break; case 2: v.SetObject(); v.AddMember("a", 1.5, al); break; case 3: v.SetArray(); v.PushBack(1.5, al); break; case 4: v.SetString(str.c_str(), al); break; case 5: v.SetDouble(x); break; case 6: v.SetInt(int(i)); break; case 7: v.SetUint64((1ull << 40) + uint64_t(std::abs(i))); break; case 8: x = huge ? 1e200 * (neg ? -1 : 1) : x; v.SetDouble(x); break; }
    s << "kind " << kind << " " << text(v); bool dbl = kind == 5 || kind == 8, fits = dbl && std::abs(x) < 3e38;
    double a = 0; bool r = reads(v, a); REQUIRE_MSG(r == dbl, "double " << (r ? "read" : "refused")); if (r) REQUIRE(a == x);
    float f = 0; r = reads(v, f); REQUIRE_MSG(r == fits, "float " << (r ? "read" : "refused")); if (r) REQUIRE(f == float(x));
    int n = 0; r = reads(v, n); REQUIRE_MSG(r == (kind == 6), "int " << (r ? "read" : "refused")); if (r) REQUIRE(n == i);
    size_t z = 0; r = reads(v, z); REQUIRE_MSG(r == (kind == 7 || (kind == 6 && i >= 0)), "size " << (r ? "read" : "refused")); if (r) REQUIRE(z == (kind == 7 ? (1ull << 40) + uint64_t(std::abs(i)) : uint64_t(i)));
    std::string t; r = reads(v, t); REQUIRE_MSG(r == (kind == 4), "text " << (r ? "read" : "refused")); if (r) REQUIRE(t == str); bool b; REQUIRE(!reads(v, b));
    // lists of them
    size_t m = s.in(1, 6), bad = s.draw(m + 1); J l(rapidjson::kArrayType); std::vector<double> want; for (size_t k = 0; k < m; k++) { want.push_back(s.sym(100)); if (k == bad) { J c; c.CopyFrom(v, al); l.PushBack(c, al); } else l.PushBack(want.back(), al); } if (bad < m && dbl) want[bad] = x; bool ok = bad == m || dbl, got = true; std::vector<double> w; try { w = gbs::make_vec<double>(l); } catch (const std::invalid_argument &) { got = false; } REQUIRE_MSG(got == ok, "list " << (got ? "read" : "refused")); if (ok) REQUIRE(w == want);
    got = true; std::array<double, 3> w3{}; try { w3 = gbs::make_array<double, 3>(l); } catch (const std::invalid_argument &) { got = false; } REQUIRE_MSG(got == (ok && m == 3), "point " << (got ? "read" : "refused")); if (got) for (int k = 0; k < 3; k++) REQUIRE(w3[k] == want[k]); got = true; try { gbs::make_vec<double>(v); } catch (const std::invalid_argument &) { got = false; } REQUIRE_MSG(got == (kind == 3), "not a list read");
    J ax(rapidjson::kArrayType); size_t na = s.in(2, 4); std::vector<std::vector<double>> A; for (size_t k = 0; k < na; k++) { A.push_back({s.sym(5), s.sym(5), s.sym(5)}); J p(rapidjson::kArrayType); for (auto y : A[k]) p.PushBack(y, al); ax.PushBack(p, al); } got = true; gbs::ax2<double, 3> q; try { q = gbs::make_ax2<double, 3>(ax); } catch (const std::invalid_argument &) { got = false; } REQUIRE_MSG(got == (na == 3), "axes of " << na << " vectors"); if (got) for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) REQUIRE(q[k][c] == A[k][c]); s.nontrivial();
}
// a curve known by its base only is written as the curve it is
PBT_ARM(written_by_base, 200, 5000)
{
    D d; auto &al = d.GetAllocator(); auto c = gcrv<2, false>(s, 1, 4, 3); auto cr = gcrv<2, true>(s, 1, 4, 3); auto C = std::make_shared<gbs::BSCurve<double, 2>>(c.make()); auto R = std::make_shared<gbs::BSCurveRational<double, 2>>(cr.make()); auto b = C->bounds(); auto T = std::make_shared<gbs::CurveTrimmed<double, 2>>(C, b[0] + .1 * (b[1] - b[0]), b[1]); auto f1 = gcrv<1, false>(s, 1, 3, 2); gbs::BSCfunction<double> F(f1.make()); auto off = std::make_shared<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(C, F); std::vector<std::shared_ptr<gbs::Curve<double, 2>>> L{R, T, C}; auto cc = std::make_shared<gbs::CurveComposite<double, 2>>(L); s << showp(c.P, 6);
    auto is = [&](const gbs::Curve<double, 2> *x, const J &want, const char *w) { auto v = gbs::make_json(x, al); REQUIRE_MSG(text(v) == text(want), w << " written as " << text(v).substr(0, 200)); };
    is(C.get(), gbs::make_json(*C, al), "curve"); is(R.get(), gbs::make_json(*R, al), "rational curve"); is(T.get(), gbs::make_json(*T, al), "part of a curve"); is(cc.get(), gbs::make_json(*cc, al), "chain of curves"); is(off.get(), gbs::make_json(*off, al), "offset of a curve");
    auto t2 = std::make_shared<gbs::CurveTrimmed<double, 2>>(off, b[0], b[1]); auto v = gbs::make_json(*t2, al); REQUIRE_MSG(text(v["curve"]) == text(gbs::make_json(*off, al)), "curve trimmed: " << text(v["curve"]).substr(0, 200)); s.nontrivial();
}
