#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bsstools.h>
const char *pbt_property = "P05";
const char *pbt_rule = "a random B-spline or NURBS surface (degrees 1..4, different pole counts) and a history of 1..7 edits (knot insertion, degree elevation, reversal, trimming, re-parametrisation, swapping and splitting in either direction); model: quad-precision original composed with the parameter maps, compared after every step; non-trivial: at least two kinds of edit";
using namespace gen;
struct Map { long double A{0}, B{1}; double lo, hi; };
template <bool rat>
struct Model
{
    Knots<double> U, V; std::vector<std::array<double, 3 + rat>> P; size_t p, q;
    Map m[2]; bool sw{false}; double scale, tol; // m[0]: map of the original u, m[1]: of the original v; sw: current first parameter is the original v
    Map &cur(int i) { return m[sw ? 1 - i : i]; }
    std::array<double, 3> at(double a, double b, int da, int db) const
    {
        double u = sw ? b : a, v = sw ? a : b; int du = sw ? db : da, dv = sw ? da : db;
        u = double(m[0].A + m[0].B * (long double)u); v = double(m[1].A + m[1].B * (long double)v);
        u = std::min(std::max(u, U.lo()), U.hi()); v = std::min(std::max(v, V.lo()), V.hi());
        std::vector<ref::Val<3>> R;
        if constexpr (rat) R = ref::rsurface<double, 3>(U.flat, V.flat, P, p, q, u, v, du, dv); else R = ref::surface<double, 3>(U.flat, V.flat, P, p, q, u, v, du, dv);
        std::array<double, 3> r; for (int c = 0; c < 3; c++) r[c] = double(R.back().v[c]) * double(du ? m[0].B : 1) * double(dv ? m[1].B : 1);
        return r;
    }
};
static std::vector<double> distinct_of(const std::vector<double> &k) { std::vector<double> d; for (auto x : k) if (d.empty() || x - d.back() > 1e-10) d.push_back(x); return d; }
static size_t mult_of(const std::vector<double> &k, double u) { size_t n = 0; for (auto x : k) n += std::abs(x - u) < 1e-12 * (1 + std::abs(u)); return n; }
template <typename S, bool rat>
static void same(Src &s, const S &f, Model<rat> &M)
{
    auto &ku = f.knotsFlatsU(), &kv = f.knotsFlatsV(); size_t p = f.degreeU(), q = f.degreeV();
    REQUIRE(f.poles().size() == (ku.size() - p - 1) * (kv.size() - q - 1));
    REQUIRE(std::is_sorted(ku.begin(), ku.end()) && std::is_sorted(kv.begin(), kv.end()));
    // the poles one by one are those of the list, u first; beyond the net there is none
    { size_t nu = f.nPolesU(), nv = f.nPolesV(); REQUIRE(nu == ku.size() - p - 1 && nv == kv.size() - q - 1); S g(f); size_t i = s.draw(nu - 1), j = s.draw(nv - 1);
      REQUIRE_MSG(f.pole(i, j) == f.poles()[i + nu * j] && g.pole(i, j) == f.poles()[i + nu * j], "pole " << i << "," << j << " of " << nu << "x" << nv);
      for (auto [a, b] : {std::pair{nu, size_t(0)}, std::pair{size_t(0), nv}, std::pair{nu + i, nv + j}}) { bool refused = false; try { (void)f.pole(a, b); } catch (const std::out_of_range &) { refused = true; } REQUIRE_MSG(refused, "pole " << a << "," << b << " of " << nu << "x" << nv << " is given"); } }
    auto b = f.bounds();
    for (int i = 0; i < 2; i++) REQUIRE_MSG(std::abs(b[2 * i] - M.cur(i).lo) < 1e-12 * (1 + std::abs(M.cur(i).lo)) && std::abs(b[2 * i + 1] - M.cur(i).hi) < 1e-12 * (1 + std::abs(M.cur(i).hi)), "bounds " << b[2 * i] << "," << b[2 * i + 1] << " expected " << M.cur(i).lo << "," << M.cur(i).hi);
    for (auto *k : {&ku, &kv}) { size_t d = k == &ku ? p : q; for (size_t i = 0; i <= d; i++) REQUIRE((*k)[i] == k->front() && (*k)[k->size() - 1 - i] == k->back()); }
    auto du = distinct_of(ku), dv = distinct_of(kv);
    std::vector<std::array<double, 2>> uv{{b[0], b[2]}, {b[1], b[2]}, {b[0], b[3]}, {b[1], b[3]}};
    for (int i = 0; i < 6; i++) uv.push_back({b[0] + (b[1] - b[0]) * s.unit(), b[2] + (b[3] - b[2]) * s.unit()});
    { size_t i = s.draw(du.size() - 1), j = s.draw(dv.size() - 1); uv.push_back({0.5 * (du[i] + du[i + 1]), 0.5 * (dv[j] + dv[j + 1])}); }
    for (auto [u, v] : uv)
    {
        u = std::min(u, b[1]); v = std::min(v, b[3]);
        auto e = M.at(u, v, 0, 0); auto x = f.value(u, v);
        for (int c = 0; c < 3; c++) REQUIRE_MSG(std::abs(e[c] - x[c]) <= M.tol * M.scale, "point moved by " << std::abs(e[c] - x[c]) << " at " << u << "," << v);
    }
    // tangent inside a cell of the current surface
    size_t i = s.draw(du.size() - 1), j = s.draw(dv.size() - 1);
    double u = du[i] + (du[i + 1] - du[i]) * s.real(0.2, 0.8), v = dv[j] + (dv[j + 1] - dv[j]) * s.real(0.2, 0.8);
    for (int w = 0; w < 2; w++)
    {
        auto e = M.at(u, v, w == 0, w == 1); auto x = f.value(u, v, w == 0, w == 1);
        double sc = M.scale * (w == 0 ? p / (du[i + 1] - du[i]) : q / (dv[j + 1] - dv[j]));
        for (int c = 0; c < 3; c++) REQUIRE_MSG(std::abs(e[c] - x[c]) <= 100 * M.tol * (sc + std::abs(e[c])), "tangent " << w << " " << x[c] << " expected " << e[c]);
    }
}
template <bool rat>
static void history(Src &s)
{
    using S = std::conditional_t<rat, gbs::BSSurfaceRational<double, 3>, gbs::BSSurface<double, 3>>;
    Model<rat> M; M.p = s.in(1, 4); M.q = s.in(1, 4);
    KOpt o; o.max_spans = 3; o.ratio = 8; M.U = knots<double>(s, M.p, o); M.V = knots<double>(s, M.q, o);
    if constexpr (rat) M.P = hpoints<double, 3>(s, M.U.n() * M.V.n(), 10, 3); else M.P = points<double, 3>(s, M.U.n() * M.V.n());
    M.m[0].lo = M.U.lo(); M.m[0].hi = M.U.hi(); M.m[1].lo = M.V.lo(); M.m[1].hi = M.V.hi();
    M.scale = 1 + maxabs(M.P) * (rat ? 10 : 1); M.tol = 2e-10;
    S f(M.P, M.U.flat, M.V.flat, M.p, M.q);
    s << "p=" << M.p << " q=" << M.q << " ku=" << show(M.U.flat) << " kv=" << show(M.V.flat) << " ops:";
    int nops = s.in(1, 7), kinds = 0; unsigned seen = 0;
    for (int i = 0; i < nops; i++)
    {
        size_t op = s.weighted({4, 2, 2, 2, 3, 3, 1});
        bool v = s.chance(1, 2);
        if (!(seen & (1u << (2 * op + v)))) { seen |= 1u << (2 * op + v); kinds++; }
        auto k = v ? f.knotsFlatsV() : f.knotsFlatsU(); auto kother = v ? f.knotsFlatsU() : f.knotsFlatsV(); size_t d = v ? f.degreeV() : f.degreeU();
        auto D = distinct_of(k); Map &m = M.cur(v);
        auto fresh = [&] { size_t j = s.draw(D.size() - 1); return D[j] + (D[j + 1] - D[j]) * (0.05 + 0.9 * s.unit()); };
        const char *dir = v ? "V" : "U";
        switch (op)
        {
        case 0:
        {
            double u = s.chance(1, 3) ? D[s.draw(D.size())] : fresh(); size_t n = s.in(1, int(d) + 1), b = mult_of(k, u);
            s << " insertKnot" << dir << "(" << u << "," << n << ")";
            if (v) f.insertKnotV(u, n); else f.insertKnotU(u, n);
            size_t a = mult_of(v ? f.knotsFlatsV() : f.knotsFlatsU(), u);
            if (u > D.front() && u < D.back()) REQUIRE(a == std::min(d, b + n)); else REQUIRE(a == b);
            break;
        }
        case 1:
        {
            if (d > 6) break;
            s << " increaseDegree" << dir; if (v) f.increaseDegreeV(); else f.increaseDegreeU();
            REQUIRE((v ? f.degreeV() : f.degreeU()) == d + 1);
            auto kn = v ? f.knotsFlatsV() : f.knotsFlatsU();
            for (auto x : D) REQUIRE(mult_of(kn, x) == mult_of(k, x) + 1);
            M.tol *= 20; break;
        }
        case 2:
            s << " invertUV"; f.invertUV(); M.sw = !M.sw; break;
        case 3:
            s << " reverse" << dir; if (v) f.reverseV(); else f.reverseU();
            m.A += m.B * ((long double)m.lo + m.hi); m.B = -m.B; break;
        case 4:
        {
            double a = s.chance(1, 3) ? m.lo : s.chance(1, 4) ? D[s.draw(D.size() - 1)] : fresh(), b = s.chance(1, 3) ? m.hi : s.chance(1, 4) ? D[1 + s.draw(D.size() - 1)] : fresh();
            if (a > b) std::swap(a, b);
            double gap = 1e9; for (size_t j = 1; j < D.size(); j++) gap = std::min(gap, D[j] - D[j - 1]);
            if (b - a < 0.05 * gap) break;
            s << " trim" << dir << "(" << a << "," << b << ")";
            if (v) f.trimV(a, b); else f.trimU(a, b);
            m.lo = a; m.hi = b; break;
        }
        case 5:
        {
            double a = s.sym(10), b = a + s.real(0.1, 10);
            s << " change" << dir << "Bounds(" << a << "," << b << ")";
            if (v) f.changeVBounds(a, b); else f.changeUBounds(a, b);
            long double r = ((long double)m.hi - m.lo) / ((long double)b - a);
            m.A += m.B * (m.lo - a * r); m.B *= r; m.lo = a; m.hi = b; break;
        }
        case 6:
        {
            double u = fresh(); bool first = s.chance(1, 2);
            s << " split" << dir << "(" << u << ") keep " << (first ? 1 : 2);
            auto pr = v ? gbs::split_v(f, u) : gbs::split_u(f, u);
            auto m0 = m;
            { auto keep = M; M.cur(v).hi = u; same<S, rat>(s, pr.first, M); M = keep; M.cur(v).lo = u; same<S, rat>(s, pr.second, M); M = keep; }
            f = first ? pr.first : pr.second;
            if (first) M.cur(v).hi = u; else M.cur(v).lo = u;
            break;
        }
        }
        if (op != 2) REQUIRE((v ? f.knotsFlatsU() : f.knotsFlatsV()) == kother);
        same<S, rat>(s, f, M);
    }
    s.nontrivial(kinds >= 2);
}
PBT_ARM(history_poly, 5000, 150000) { history<false>(s); }
PBT_ARM(history_rational, 3000, 80000) { history<true>(s); }
