#include "gen.h"
#include <gbs/curves>
const char *pbt_property = "P01";
const char *pbt_rule = "random clamped knot vectors (1-6 spans, interior multiplicities 1..degree, span ratios up to 300, shifted domains), poles, degree, parameter (ends, knots, neighbours of knots, interior), derivative order 0..degree+2; non-trivial: more than one span or degree>=3, and the parameter is a knot or a derivative is compared";
using namespace gen;

template <typename T, size_t N>
static void check_curve_eval(Src &s, size_t dmax, int max_spans)
{
    size_t p = degree(s, int(dmax));
    KOpt o; o.max_spans = max_spans; if (sizeof(T) == 4) { o.ratio = 20; }
    auto K = knots<T>(s, p, o);
    auto P = points<T, N>(s, K.n());
    gbs::BSCurve<T, N> c(P, K.flat, p);
    T u = param(s, K);
    size_t nd = s.draw(p + 3);
    s << "p=" << p << " knots=" << show(K.flat) << " poles=" << showp(P) << " u=" << u << " orders 0.." << nd;
    auto R = ref::curve<T, N>(K.flat, P, p, u, nd);
    std::vector<std::array<T, N>> CK(nd + 1);
    c.derivatives(u, nd, CK.data());
    const double tol = 16. * (p + 2);
    bool at_knot = std::find(K.brk.begin(), K.brk.end(), u) != K.brk.end();
    for (size_t d = 0; d <= nd; d++)
    {
        auto v = c.value(u, d);
        auto r1 = ratio_to_ref<T, N>(v, R[d]), r2 = ratio_to_ref<T, N>(CK[d], R[d]);
        REQUIRE_MSG(r1 <= tol, "value(u," << d << ") off by " << r1 << " units of rounding");
        REQUIRE_MSG(r2 <= tol, "derivatives()[" << d << "] off by " << r2 << " units of rounding");
        if (d > p) for (size_t k = 0; k < N; k++) REQUIRE(v[k] == T(0) && CK[d][k] == T(0));
        auto w = c(u, d);
        REQUIRE(w == v);
    }
    // ends of the curve are its first and last poles
    REQUIRE(dist(c.begin(), P.front()) <= 1e2 * std::numeric_limits<T>::epsilon() * (1 + maxabs(P)));
    REQUIRE(dist(c.end(), P.back()) <= 1e2 * std::numeric_limits<T>::epsilon() * (1 + maxabs(P)));
    s.label("degree " + std::to_string(p));
    if (at_knot) s.label("at knot"); if (K.has_multiple()) s.label("multiple interior knot");
    s.nontrivial((K.brk.size() > 2 || p >= 3) && (at_knot || nd > 0));
}
PBT_ARM(eval_d3, 24000, 1200000) { check_curve_eval<double, 3>(s, 9, 6); }
PBT_ARM(eval_d2, 8000, 400000) { check_curve_eval<double, 2>(s, 9, 6); }
PBT_ARM(eval_d1, 6000, 300000) { check_curve_eval<double, 1>(s, 9, 6); }
PBT_ARM(eval_f3, 8000, 400000) { check_curve_eval<float, 3>(s, 6, 5); }
PBT_ARM(eval_many_spans, 2000, 60000) { check_curve_eval<double, 2>(s, 4, 120); }

// degrees up to and beyond the limit of the fast evaluator
PBT_ARM(eval_high_degree, 1500, 60000)
{
    size_t p = s.in(8, 24);
    KOpt o; o.max_spans = 3; o.ratio = 10;
    auto K = knots<double>(s, p, o);
    auto P = points<double, 2>(s, K.n());
    gbs::BSCurve<double, 2> c(P, K.flat, p);
    double u = param(s, K); size_t nd = s.in(0, int(p) + 1);
    s << "p=" << p << " knots=" << show(K.flat) << " u=" << u << " orders 0.." << nd;
    auto R = ref::curve<double, 2>(K.flat, P, p, u, nd);
    std::vector<std::array<double, 2>> CK(nd + 1);
    c.derivatives(u, nd, CK.data());
    for (size_t d = 0; d <= nd; d++)
    {
        auto r1 = ratio_to_ref<double, 2>(c.value(u, d), R[d]), r2 = ratio_to_ref<double, 2>(CK[d], R[d]);
        REQUIRE_MSG(std::max(r1, r2) <= 16. * (p + 2), "order " << d << " degree " << p << " off by " << r1 << " " << r2);
    }
    s.nontrivial();
}
PBT_ARM(eval_beyond_stack, 48, 1200)
{
    size_t p = s.in(23, 26);
    std::vector<double> k(p + 1, -1.); k.insert(k.end(), p + 1, 2.);
    auto P = points<double, 1>(s, p + 1);
    gbs::BSCurve<double, 1> c(P, k, p);
    double u = s.real(-1, 2); size_t nd = s.in(0, 2);
    s << "p=" << p << " single span [-1,2] u=" << u << " orders 0.." << nd;
    auto R = ref::curve<double, 1>(k, P, p, u, nd);
    std::vector<std::array<double, 1>> CK(nd + 1);
    c.derivatives(u, nd, CK.data());
    for (size_t d = 0; d <= nd; d++)
    {
        auto r1 = ratio_to_ref<double, 1>(c.value(u, d), R[d]), r2 = ratio_to_ref<double, 1>(CK[d], R[d]);
        REQUIRE_MSG(std::max(r1, r2) <= 16. * (p + 2), "order " << d << " degree " << p << " off by " << r1 << " " << r2);
    }
    s.nontrivial(p > 24);
}
// basis functions: partition of unity, positivity, local support, derivative against the reference
PBT_ARM(basis, 6000, 300000)
{
    size_t p = degree(s, 7);
    auto K = knots<double>(s, p);
    double u = param(s, K); size_t d = s.draw(p + 2);
    size_t n = K.n();
    s << "basis p=" << p << " knots=" << show(K.flat) << " u=" << u << " d=" << d;
    auto B = ref::basis_ders(K.flat, p, u, d);
    double sum = 0;
    for (size_t i = 0; i < n; i++)
    {
        double N = gbs::basis_function(u, i, p, size_t(0), K.flat);
        REQUIRE_MSG(N >= -1e-15 && N <= 1 + 1e-13, "N_" << i << "=" << N);
        sum += N;
        double Nd = gbs::basis_function(u, i, p, d, K.flat);
        bool in = i + p >= B.i && i <= B.i;
        if (!in) REQUIRE_MSG(Nd == 0, "support of N_" << i);
        else
        {
            double r = double(B.D[d][i + p - B.i]), a = double(B.A[d][i + p - B.i]);
            REQUIRE_MSG(std::abs(Nd - r) <= 1e-14 * (p + 2) * a + 1e-300, "N_" << i << "^(" << d << ")=" << Nd << " expected " << r);
        }
    }
    REQUIRE_MSG(std::abs(sum - 1) < 1e-13 * (p + 1), "sum " << sum);
    auto it = gbs::find_span(n, p, u, K.flat) - K.flat.begin();
    REQUIRE_MSG(size_t(it) == B.i, "span " << it << " expected " << B.i);
    // de Boor evaluation agrees
    auto P = points<double, 3>(s, n);
    auto v = gbs::eval_value_deboor_cox<double, 3>(u, K.flat, P, p);
    auto R = ref::curve<double, 3>(K.flat, P, p, u, 0);
    REQUIRE_MSG((ratio_to_ref<double, 3>(v, R[0]) <= 16. * (p + 2)), "de Boor value");
    s.nontrivial(K.brk.size() > 2 || p > 2);
}
// unit tangent and curvature vector with respect to arc length
PBT_ARM(arc_derivatives, 3000, 100000)
{
    size_t p = 2 + s.draw(4);
    KOpt o; o.ratio = 20; o.max_mult = std::max<int>(1, int(p) - 2);
    auto K = knots<double>(s, p, o);
    auto P = points<double, 3>(s, K.n());
    gbs::BSCurve<double, 3> c(P, K.flat, p);
    double u = inner_param(s, K);
    auto R = ref::curve<double, 3>(K.flat, P, p, u, 2);
    double d1[3], d2[3], n2 = 0, dt = 0, a2 = 0;
    for (int i = 0; i < 3; i++) { d1[i] = double(R[1].v[i]); d2[i] = double(R[2].v[i]); n2 += d1[i] * d1[i]; dt += d1[i] * d2[i]; a2 += double(R[2].a[i]) + double(R[1].a[i]); }
    DISCARD_IF(std::sqrt(n2) < 1e-3 * a2);
    auto t = c.d_dm(u); auto k = c.d_dm2(u);
    s << "d_dm p=" << p << " u=" << u << " knots=" << show(K.flat);
    for (int i = 0; i < 3; i++)
    {
        REQUIRE(std::abs(t[i] - d1[i] / std::sqrt(n2)) < 1e-9);
        double e = (d2[i] * n2 - d1[i] * dt) / n2 / n2;
        REQUIRE_MSG(std::abs(k[i] - e) < 1e-8 * (1 + a2 / n2), "d_dm2 " << k[i] << " expected " << e);
    }
    s.nontrivial();
}
// BSCfunction: scalar function view
PBT_ARM(scalar_function, 2000, 60000)
{
    size_t p = degree(s, 6); auto K = knots<double>(s, p); auto P = points<double, 1>(s, K.n());
    std::vector<double> x; for (auto &q : P) x.push_back(q[0]);
    gbs::BSCfunction<double> f(x, K.flat, p); gbs::BSCfunction<double> g(x, K.brk, K.mult, p);
    double u = param(s, K); size_t d = s.draw(p + 2);
    auto R = ref::curve<double, 1>(K.flat, P, p, u, d);
    double a = f(u, d), b = g.value(u, d);
    s << "function p=" << p << " u=" << u << " d=" << d;
    REQUIRE((ratio_to_ref<double, 1>({a}, R[d]) <= 16. * (p + 2)));
    REQUIRE(a == b);
    REQUIRE(f.bounds()[0] == K.lo() && f.bounds()[1] == K.hi());
    s.nontrivial(K.brk.size() > 2);
}
