// Independent high precision reference: textbook Cox - de Boor recursion in quad precision.
// Nothing of /repo is used here.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <vector>
namespace ref
{
    using Q = __float128;
    inline Q qabs(Q x) { return x < 0 ? -x : x; }
    using L = long double;

    // span i in [p, n-1], non empty, k[i] <= u < k[i+1]; the last one at the end of the domain
    template <typename T>
    size_t span(const std::vector<T> &k, size_t p, T u)
    {
        size_t n = k.size() - p - 1, s = n;
        for (size_t i = p; i < n; i++)
            if (k[i] < k[i + 1] && (k[i] <= u || s == n)) s = i;
        return s;
    }
    // D[d][r] = d-th derivative of N_{i-p+r,p} at u, A: same with every subtraction replaced by an addition
    struct Ders { size_t i; std::vector<std::vector<Q>> D, A; };
    template <typename T>
    Ders basis_ders(const std::vector<T> &k, size_t p, T u, size_t nd)
    {
        Ders R; size_t i = R.i = span(k, p, u);
        Q uq = u;
        // val[d][r] : functions of the current degree j, index i-j+r, r in [0,j]
        std::vector<std::vector<Q>> v(nd + 1), a(nd + 1);
        for (auto &x : v) x.assign(1, Q(0));
        for (auto &x : a) x.assign(1, Q(0));
        v[0][0] = 1; a[0][0] = 1;
        for (size_t j = 1; j <= p; j++)
        {
            std::vector<std::vector<Q>> nv(nd + 1, std::vector<Q>(j + 1, Q(0))), na = nv;
            for (size_t r = 0; r <= j; r++)
            {
                size_t g = i - j + r; // index of the function of degree j
                // lower degree functions g (r-1 in the lower table) and g+1 (r)
                if (r >= 1)
                {
                    Q w = Q(k[g + j]) - Q(k[g]);
                    if (w > 0)
                    {
                        nv[0][r] += (uq - Q(k[g])) / w * v[0][r - 1];
                        na[0][r] += qabs(uq - Q(k[g])) / w * a[0][r - 1];
                        for (size_t d = 1; d <= nd; d++) { nv[d][r] += Q(j) / w * v[d - 1][r - 1]; na[d][r] += Q(j) / w * a[d - 1][r - 1]; }
                    }
                }
                if (r < j)
                {
                    Q w = Q(k[g + j + 1]) - Q(k[g + 1]);
                    if (w > 0)
                    {
                        nv[0][r] += (Q(k[g + j + 1]) - uq) / w * v[0][r];
                        na[0][r] += qabs(Q(k[g + j + 1]) - uq) / w * a[0][r];
                        for (size_t d = 1; d <= nd; d++) { nv[d][r] -= Q(j) / w * v[d - 1][r]; na[d][r] += Q(j) / w * a[d - 1][r]; }
                    }
                }
            }
            v = std::move(nv); a = std::move(na);
        }
        R.D = std::move(v); R.A = std::move(a);
        return R;
    }
    template <size_t N> struct Val { std::array<Q, N> v{}, a{}; }; // value and magnitude of the terms

    // all derivatives 0..nd of a polynomial spline
    template <typename T, size_t N>
    std::vector<Val<N>> curve(const std::vector<T> &k, const std::vector<std::array<T, N>> &P, size_t p, T u, size_t nd)
    {
        auto B = basis_ders(k, p, u, nd);
        std::vector<Val<N>> R(nd + 1);
        for (size_t d = 0; d <= nd; d++)
            for (size_t r = 0; r <= p; r++)
                for (size_t c = 0; c < N; c++)
                {
                    Q x = P[B.i - p + r][c];
                    R[d].v[c] += B.D[d][r] * x;
                    R[d].a[c] += B.A[d][r] * qabs(x);
                }
        return R;
    }
    inline Q binom(size_t n, size_t k)
    {
        Q r = 1;
        for (size_t i = 1; i <= k; i++) r = r * Q(n - k + i) / Q(i);
        return r;
    }
    // quotient rule
    template <size_t N>
    std::vector<Val<N>> project(const std::vector<Val<N + 1>> &H)
    {
        std::vector<Val<N>> R(H.size());
        Q w0 = H[0].v[N];
        for (size_t k = 0; k < H.size(); k++)
            for (size_t c = 0; c < N; c++)
            {
                Q x = H[k].v[c], a = H[k].a[c];
                for (size_t i = 1; i <= k; i++)
                {
                    x -= binom(k, i) * H[i].v[N] * R[k - i].v[c];
                    a += binom(k, i) * H[i].a[N] * R[k - i].a[c];
                }
                R[k].v[c] = x / w0;
                R[k].a[c] = a / qabs(w0);
            }
        // conditioning of the division by the weight function
        Q cond = H[0].a[N] / qabs(w0);
        for (auto &r : R) for (auto &a : r.a) a *= cond;
        return R;
    }
    template <typename T, size_t N>
    std::vector<Val<N>> rcurve(const std::vector<T> &k, const std::vector<std::array<T, N + 1>> &P, size_t p, T u, size_t nd)
    {
        return project<N>(curve<T, N + 1>(k, P, p, u, nd));
    }
    // surface, poles index i + nu*j; result [a*(nv+1)+b]
    template <typename T, size_t N>
    std::vector<Val<N>> surface(const std::vector<T> &ku, const std::vector<T> &kv, const std::vector<std::array<T, N>> &P,
                                size_t p, size_t q, T u, T v, size_t du, size_t dv)
    {
        auto U = basis_ders(ku, p, u, du); auto V = basis_ders(kv, q, v, dv);
        size_t nu = ku.size() - p - 1;
        std::vector<Val<N>> R((du + 1) * (dv + 1));
        for (size_t s = 0; s <= q; s++)
            for (size_t a = 0; a <= du; a++)
            {
                std::array<Q, N> x{}, m{};
                for (size_t r = 0; r <= p; r++)
                    for (size_t c = 0; c < N; c++)
                    {
                        Q y = P[U.i - p + r + nu * (V.i - q + s)][c];
                        x[c] += U.D[a][r] * y; m[c] += U.A[a][r] * qabs(y);
                    }
                for (size_t b = 0; b <= dv; b++)
                    for (size_t c = 0; c < N; c++)
                    {
                        R[a * (dv + 1) + b].v[c] += V.D[b][s] * x[c];
                        R[a * (dv + 1) + b].a[c] += V.A[b][s] * m[c];
                    }
            }
        return R;
    }
    template <typename T, size_t N>
    std::vector<Val<N>> rsurface(const std::vector<T> &ku, const std::vector<T> &kv, const std::vector<std::array<T, N + 1>> &P,
                                 size_t p, size_t q, T u, T v, size_t du, size_t dv)
    {
        auto H = surface<T, N + 1>(ku, kv, P, p, q, u, v, du, dv);
        std::vector<Val<N>> R(H.size());
        Q w0 = H[0].v[N];
        auto at = [&](size_t a, size_t b) { return a * (dv + 1) + b; };
        for (size_t a = 0; a <= du; a++)
            for (size_t b = 0; b <= dv; b++)
                for (size_t c = 0; c < N; c++)
                {
                    Q x = H[at(a, b)].v[c], m = H[at(a, b)].a[c];
                    for (size_t i = 0; i <= a; i++)
                        for (size_t j = 0; j <= b; j++)
                            if (i + j)
                            {
                                Q k = binom(a, i) * binom(b, j);
                                x -= k * H[at(i, j)].v[N] * R[at(a - i, b - j)].v[c];
                                m += k * H[at(i, j)].a[N] * R[at(a - i, b - j)].a[c];
                            }
                    R[at(a, b)].v[c] = x / w0;
                    R[at(a, b)].a[c] = m / qabs(w0);
                }
        Q cond = H[0].a[N] / qabs(w0);
        for (auto &r : R) for (auto &a : r.a) a *= cond;
        return R;
    }
}
