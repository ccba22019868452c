// Generators shared by the harnesses.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <array>
#include <vector>

namespace gen
{
    using pbt::Src;
    template <typename T> struct Knots
    {
        std::vector<T> flat, brk; std::vector<size_t> mult; size_t p;
        T lo() const { return flat.front(); }
        T hi() const { return flat.back(); }
        size_t n() const { return flat.size() - p - 1; }
        T minspan() const { T m = hi() - lo(); for (size_t i = 1; i < brk.size(); i++) m = std::min(m, brk[i] - brk[i - 1]); return m; }
        bool has_multiple() const { for (size_t i = 1; i + 1 < mult.size(); i++) if (mult[i] > 1) return true; return false; }
    };
    struct KOpt
    {
        int max_spans{6};
        int max_mult{-1};  // -1: up to the degree
        double ratio{300}; // largest / smallest span
        bool unit{false};  // domain [0,1]
        bool shift{true};
    };
    // clamped knot vector of degree p
    template <typename T>
    Knots<T> knots(Src &s, size_t p, KOpt o = {})
    {
        Knots<T> K; K.p = p;
        int ns = s.in(1, o.max_spans);
        std::vector<double> w(ns);
        size_t mode = s.weighted({3, 3, 2, 1});
        for (auto &x : w)
            x = mode == 0 ? 1. : mode == 1 ? s.real(0.2, 1.2) : mode == 2 ? std::exp(s.real(-0.5, 0.5) * std::log(o.ratio)) : (s.chance(1, 3) ? 1. / o.ratio * 3 : 1.);
        double tot = 0; for (auto x : w) tot += x;
        double len = 1, off = 0;
        if (!o.unit)
            switch (s.weighted({4, 2, 2, 1}))
            {
            case 0: break;
            case 1: len = s.real(0.5, 20); if (o.shift) off = s.sym(20); break;
            case 2: len = tot; break;                      // integer-like knots
            case 3: len = s.real(1, 4); if (o.shift) off = s.one_of({-1., 1.}) * s.real(50, 200); break;
            }
        double acc = 0;
        K.brk.push_back(T(off));
        for (int i = 0; i < ns; i++) { acc += w[i]; K.brk.push_back(i + 1 == ns ? T(off + len) : T(off + len * (acc / tot))); }
        size_t mm = o.max_mult < 0 ? p : std::min<size_t>(p, o.max_mult);
        size_t mmode = s.weighted({4, 2, 2});
        for (int i = 0; i <= ns; i++)
        {
            size_t m = (i == 0 || i == ns) ? p + 1 : mmode == 0 ? 1 : mmode == 1 ? size_t(s.in(1, int(mm))) : (s.chance(1, 3) ? mm : 1);
            K.mult.push_back(m);
            for (size_t r = 0; r < m; r++) K.flat.push_back(K.brk[i]);
        }
        return K;
    }
    inline size_t degree(Src &s, int dmax = 8)
    {
        if (s.weighted({6, 2}) == 0) return s.in(1, std::min(5, dmax));
        return s.in(1, dmax);
    }
    template <typename T, size_t N>
    std::vector<std::array<T, N>> points(Src &s, size_t n, double m = 10)
    {
        std::vector<std::array<T, N>> P(n);
        size_t mode = s.weighted({4, 1, 1});
        for (size_t i = 0; i < n; i++)
        {
            if (mode == 2 && i && s.chance(1, 3)) { P[i] = P[i - 1]; continue; } // coincident poles
            for (auto &x : P[i]) x = T(mode == 1 ? double(s.in(0, 8) - 4) : s.sym(m));
        }
        return P;
    }
    template <typename T>
    std::vector<T> weights(Src &s, size_t n, double spread = 10)
    {
        std::vector<T> w(n, T(1));
        size_t mode = s.weighted({1, 3, 2});
        for (auto &x : w) x = mode == 0 ? T(1) : mode == 1 ? T(s.real(0.5, 2.5)) : T(std::exp(s.real(-1, 1) * std::log(spread)));
        return w;
    }
    // homogeneous poles (w*x, w)
    template <typename T, size_t N>
    std::vector<std::array<T, N + 1>> hpoints(Src &s, size_t n, double m = 10, double spread = 10)
    {
        auto P = points<T, N>(s, n, m); auto w = weights<T>(s, n, spread);
        std::vector<std::array<T, N + 1>> H(n);
        for (size_t i = 0; i < n; i++) { for (size_t c = 0; c < N; c++) H[i][c] = P[i][c] * w[i]; H[i][N] = w[i]; }
        return H;
    }
    // parameter of the domain: ends, knots, their floating point neighbours, anything
    template <typename T>
    T param(Src &s, const Knots<T> &K)
    {
        switch (s.weighted({4, 2, 1, 1, 1}))
        {
        case 0: { T u = K.lo() + (K.hi() - K.lo()) * T(s.unit()); return std::min(std::max(u, K.lo()), K.hi()); }
        case 1: return K.brk[s.draw(K.brk.size())];
        case 2: return K.lo();
        case 3: return K.hi();
        default: { T b = K.brk[s.draw(K.brk.size())]; T u = s.chance(1, 2) ? std::nextafter(b, K.hi()) : std::nextafter(b, K.lo()); return std::min(std::max(u, K.lo()), K.hi()); }
        }
    }
    // parameter well inside a span (no knot within `frac` of the span)
    template <typename T>
    T inner_param(Src &s, const Knots<T> &K, double frac = 0.05)
    {
        size_t i = s.draw(K.brk.size() - 1);
        T a = K.brk[i], b = K.brk[i + 1];
        return a + (b - a) * T(frac + (1 - 2 * frac) * s.unit());
    }
    template <typename V> std::string show(const V &v, size_t maxn = 40)
    {
        std::ostringstream o; o.precision(9); o << "{"; size_t i = 0;
        for (auto &x : v) { if (i) o << ","; if (i++ >= maxn) { o << "..."; break; } o << x; }
        o << "}"; return o.str();
    }
    template <typename T, size_t N> std::string showp(const std::vector<std::array<T, N>> &v, size_t maxn = 20)
    {
        std::ostringstream o; o.precision(9); o << "{"; size_t i = 0;
        for (auto &x : v) { if (i) o << ","; if (i++ >= maxn) { o << "..."; break; } o << show(x); }
        o << "}"; return o.str();
    }
    template <typename T, size_t N> double dist(const std::array<T, N> &a, const std::array<T, N> &b)
    {
        double r = 0; for (size_t c = 0; c < N; c++) r += double(a[c] - b[c]) * double(a[c] - b[c]); return std::sqrt(r);
    }
    template <typename T, size_t N> double maxabs(const std::vector<std::array<T, N>> &v)
    {
        double m = 0; for (auto &x : v) for (auto c : x) m = std::max(m, std::abs(double(c))); return m;
    }
    template <typename T, size_t N> double mag(const std::array<T, N> &v)
    {
        double r = 0; for (auto c : v) r += double(c) * double(c); return std::sqrt(r);
    }
}
// compare a computed point to the quad reference with tolerance K*eps*magnitude
template <typename T, size_t N>
double ratio_to_ref(const std::array<T, N> &x, const ref::Val<N> &r)
{
    double worst = 0; const double eps = std::numeric_limits<T>::epsilon();
    for (size_t c = 0; c < N; c++)
    {
        if (!std::isfinite(double(x[c]))) return 1e300;
        double e = double(ref::qabs(ref::Q(x[c]) - r.v[c])), m = double(r.a[c]) * eps + 1e6 * double(std::numeric_limits<T>::min());
        worst = std::max(worst, e / m);
    }
    return worst;
}
