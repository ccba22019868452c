#include "gen.h"
#include <gbs/curves>
#include <gbs/bscbuild.h>
const char *pbt_property = "P02";
const char *pbt_rule = "random rational B-splines (weights 0.1..10, degree 1..9, repeated knots), parameter at ends/knots/interior, derivative orders 0..degree+4; random ellipses and circles (radii 1e-3..1e3, any centre, 2D/3D, float/double); non-trivial: weights are not all equal or the case is a conic at a non-quarter parameter";
using namespace gen;

template <typename T, size_t N>
static void check_rational(Src &s, size_t dmax)
{
    size_t p = degree(s, int(dmax));
    KOpt o; if (sizeof(T) == 4) o.ratio = 20;
    auto K = knots<T>(s, p, o);
    auto P = points<T, N>(s, K.n()); auto w = weights<T>(s, K.n());
    std::vector<std::array<T, N + 1>> H(P.size());
    for (size_t i = 0; i < P.size(); i++) { for (size_t c = 0; c < N; c++) H[i][c] = P[i][c] * w[i]; H[i][N] = w[i]; }
    gbs::BSCurveRational<T, N> c(H, K.flat, p);
    T u = param(s, K); size_t nd = s.draw(p + 5);
    s << "p=" << p << " knots=" << show(K.flat) << " weights=" << show(w) << " poles=" << showp(P) << " u=" << u << " orders 0.." << nd;
    auto R = ref::rcurve<T, N>(K.flat, H, p, u, nd);
    std::vector<std::array<T, N>> CK(nd + 1);
    c.derivatives(u, nd, CK.data());
    const double tol = 24. * (p + 2);
    for (size_t d = 0; d <= nd; d++)
    {
        auto r2 = ratio_to_ref<T, N>(CK[d], R[d]);
        REQUIRE_MSG(r2 <= tol, "derivatives()[" << d << "] off by " << r2);
        if (d > 6) continue; // the one-order path is exponential in the order
        auto r1 = ratio_to_ref<T, N>(c.value(u, d), R[d]);
        REQUIRE_MSG(r1 <= tol, "value(u," << d << ") off by " << r1);
    }
    // every way to build it gives the same curve
    gbs::BSCurveRational<T, N> c2(P, K.flat, w, p), c3(P, K.brk, K.mult, w, p);
    auto v = c.value(u), v2 = c2.value(u), v3 = c3.value(u);
    double sc = 1e2 * std::numeric_limits<T>::epsilon() * (1 + maxabs(P));
    REQUIRE(dist(v, v2) <= sc * 100 && v2 == v3);
    auto pp = c2.polesProjected(); auto ww = c2.weights();
    for (size_t i = 0; i < P.size(); i++) { REQUIRE(dist(pp[i], P[i]) <= sc); REQUIRE(ww[i] == w[i]); }
    // stays in the bounding box of its poles (positive weights)
    for (size_t k = 0; k < N; k++)
    {
        T lo = P[0][k], hi = P[0][k]; for (auto &q : P) { lo = std::min(lo, q[k]); hi = std::max(hi, q[k]); }
        REQUIRE(v[k] >= lo - sc * 100 && v[k] <= hi + sc * 100);
    }
    bool eq = true; for (auto x : w) eq = eq && x == w[0];
    s.nontrivial(!eq);
}
PBT_ARM(rational_d3, 12000, 500000) { check_rational<double, 3>(s, 9); }
PBT_ARM(rational_d2, 8000, 300000) { check_rational<double, 2>(s, 7); }
PBT_ARM(rational_d1, 3000, 100000) { check_rational<double, 1>(s, 5); }
PBT_ARM(rational_f3, 5000, 200000) { check_rational<float, 3>(s, 4); }
// high derivative orders of rational curves
PBT_ARM(rational_high_order, 1500, 40000)
{
    size_t p = s.in(1, 6); KOpt o; o.max_spans = 2; o.ratio = 5; auto K = knots<double>(s, p, o);
    auto H = hpoints<double, 2>(s, K.n(), 10, 2);
    gbs::BSCurveRational<double, 2> c(H, K.flat, p);
    double u = param(s, K); size_t nd = s.in(8, 24);
    s << "p=" << p << " knots=" << show(K.flat) << " u=" << u << " orders 0.." << nd;
    auto R = ref::rcurve<double, 2>(K.flat, H, p, u, nd);
    std::vector<std::array<double, 2>> CK(nd + 1);
    c.derivatives(u, nd, CK.data());
    for (size_t d = 0; d <= nd; d++)
    {
        auto r = ratio_to_ref<double, 2>(CK[d], R[d]);
        REQUIRE_MSG(r <= 24. * (p + 2) * (1 + d), "derivatives()[" << d << "] off by " << r);
    }
    s.nontrivial();
}
// equal weights: identical to the polynomial curve
PBT_ARM(equal_weights, 3000, 100000)
{
    size_t p = degree(s, 7); auto K = knots<double>(s, p); auto P = points<double, 3>(s, K.n());
    gbs::BSCurve<double, 3> c(P, K.flat, p); gbs::BSCurveRational<double, 3> r(c), r2(P, K.flat, p);
    double w = s.real(0.1, 9); gbs::BSCurveRational<double, 3> r3(P, K.flat, std::vector<double>(P.size(), w), p);
    double u = param(s, K); size_t d = s.draw(std::min<size_t>(p, 4) + 1);
    auto R = ref::curve<double, 3>(K.flat, P, p, u, d);
    s << "p=" << p << " w=" << w << " u=" << u << " d=" << d;
    for (auto *x : {&r, &r2, &r3}) REQUIRE((ratio_to_ref<double, 3>(x->value(u, d), R[d]) <= 64. * (p + 2)));
    s.nontrivial(d > 0 || K.brk.size() > 2);
}
template <typename T, size_t N>
static void conic(Src &s)
{
    double e = std::numeric_limits<T>::epsilon();
    T a = T(std::exp(s.real(-6, 6))), b = s.chance(1, 2) ? a : T(a * std::exp(s.real(-3, 3)));
    std::array<T, N> ctr{}; if (s.chance(2, 3)) for (auto &x : ctr) x = T(s.sym(5 * std::max(a, b)));
    auto c = a == b && s.chance(1, 2) ? gbs::build_circle<T, N>(a, ctr) : gbs::build_ellipse<T, N>(a, b, ctr);
    T u = T(s.unit()); if (s.chance(1, 8)) u = s.one_of({T(0), T(0.25), T(0.5), T(0.75), T(1)});
    s << "ellipse a=" << a << " b=" << b << " centre=" << show(ctr) << " u=" << u;
    REQUIRE(c.bounds()[0] == T(0) && c.bounds()[1] == T(1));
    auto v = c.value(u); auto t = c.value(u, 1);
    double x = (double(v[0]) - ctr[0]) / a, y = (double(v[1]) - ctr[1]) / b;
    double sc = e * 200 * (1 + mag(ctr) / std::min(a, b));
    REQUIRE_MSG(std::abs(std::sqrt(x * x + y * y) - 1) <= sc, "off the conic by " << std::abs(std::sqrt(x * x + y * y) - 1));
    for (size_t k = 2; k < N; k++) REQUIRE(std::abs(double(v[k]) - ctr[k]) <= e * 50 * (1 + std::abs(ctr[k])));
    int q = std::min(3, int(double(u) * 4));
    // inside a quarter the standard quadratic arc: tan(theta/2-ish) : theta from the rational parametrisation
    double l = double(u) * 4 - q, w = std::sqrt(0.5);
    double den = (1 - l) * (1 - l) + 2 * l * (1 - l) * w + l * l;
    double ex = ((1 - l) * (1 - l) + 2 * l * (1 - l) * w) / den, ey = (l * l + 2 * l * (1 - l) * w) / den;
    double th = std::atan2(ey, ex) + q * M_PI / 2;
    REQUIRE(std::abs(std::cos(th) - x) <= 1e2 * sc && std::abs(std::sin(th) - y) <= 1e2 * sc);
    double cr = x * double(t[1]) / b - y * double(t[0]) / a;
    REQUIRE(cr > 0);
    REQUIRE(std::abs(x * double(t[0]) / a + y * double(t[1]) / b) <= 1e3 * sc * (1 + cr));
    REQUIRE(dist(c.begin(), c.end()) <= 10 * e * (std::abs(double(a)) + mag(ctr)));
    s.nontrivial(u != T(0) && u != T(1) && std::abs(l) > 1e-9);
}
PBT_ARM(conic_d2, 4000, 100000) { conic<double, 2>(s); }
PBT_ARM(conic_d3, 3000, 100000) { conic<double, 3>(s); }
PBT_ARM(conic_f3, 2000, 60000) { conic<float, 3>(s); }
// derivative and primitive curves
PBT_ARM(derivate_integrate, 3000, 100000)
{
    size_t p = s.in(1, 6); KOpt o; o.max_mult = std::max<int>(1, int(p) - 1); auto K = knots<double>(s, p, o); auto P = points<double, 2>(s, K.n());
    gbs::BSCurve<double, 2> c(P, K.flat, p);
    double u = param(s, K);
    std::array<double, 2> P0{s.sym(5), s.sym(5)};
    auto I = gbs::build_integrate(c, P0);
    s << "p=" << p << " knots=" << show(K.flat) << " u=" << u;
    auto R = ref::curve<double, 2>(K.flat, P, p, u, 1);
    double L = K.hi() - K.lo();
    if (p >= 2)
    {
        auto D = gbs::build_derivate(c);
        REQUIRE((ratio_to_ref<double, 2>(D.value(u), R[1]) <= 32. * (p + 2)));
    }
    REQUIRE(I.degree() == p + 1);
    for (int k = 0; k < 2; k++) REQUIRE(std::abs(I.value(u, 1)[k] - double(R[0].v[k])) < 1e-10 * (1 + double(R[0].a[k])) * (1 + L / K.minspan()));
    REQUIRE(dist(I.begin(), P0) < 1e-12 * (1 + mag(P0)));
    s.nontrivial(K.brk.size() > 2);
}
