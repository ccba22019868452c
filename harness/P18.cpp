#include "gen.h"
#include <topology/robustPredicates.h>
#include <topology/baseGeom.h>
#include <topology/baseIntersection.h>
#include <topology/tessellations.h>
using namespace gen;
using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/;
const char *pbt_property = "P18";
const char *pbt_rule = "random points, mostly nearly aligned, nearly cocircular or on a grid, polygons simple and not, segments, triangles; oracle: the same predicate in exact 128-bit integer arithmetic, the defining equations for centres and coordinates; non-trivial: the configuration is degenerate or within rounding of it, or the polygon has at least 4 sides";
using P2 = std::array<double, 2>; using P3 = std::array<double, 3>; using I = __int128; using L2 = std::array<long long, 2>;
static int sg(I x) { return (x > 0) - (x < 0); }
template <typename T> static int sgf(T x) { return (x > 0) - (x < 0); }
static I det(const L2 &a, const L2 &b, const L2 &c) { return I(a[0] - c[0]) * (b[1] - c[1]) - I(a[1] - c[1]) * (b[0] - c[0]); }
// fixed point coordinates exactly representable in T; bits: size of the mantissa, frac: fractional bits
template <typename T> static void orient(Src &s)
{
    const int M = std::numeric_limits<T>::digits; const int F = M == 53 ? 60 : 40; // coordinates are multiples of 2^-F below 2
    auto rnd = [&](long long k) { return (long long)std::llround(double(T(double(k)))); }; // to a multiple T can hold
    auto repr = [&](long long k) { // round the integer to M significant bits
        if (!k) return k; unsigned long long a = k < 0 ? -(unsigned long long)k : k; int hb = 63 - __builtin_clzll(a); if (hb >= M) { int sh = hb - M + 1; a = (a >> sh) << sh; } return k < 0 ? -(long long)a : (long long)a; };
    (void)rnd; auto pt = [&](int mag) -> L2 { L2 p; for (auto &x : p) { unsigned long long r = ((unsigned long long)s.draw(1u << 31) << 31) | s.draw(1u << 31); x = (long long)(r & ((1ull << mag) - 1)); if (s.chance(1, 2)) x = -x; x = repr(x); } return p; };
    int mag = s.in(3, F); L2 a = pt(mag), b = pt(s.chance(1, 2) ? mag : s.in(3, F)), c; int how = s.draw(5);
    if (how == 0) c = pt(mag);
    else // on the line, or a hair off it
    {
        long double t = how == 1 ? (long double)s.unit() : how == 2 ? 0.5L : how == 3 ? (long double)s.sym(3) : std::ldexp(1.0L, -int(s.draw(30))); for (int k = 0; k < 2; k++) { long double z = a[k] + t * (long double)(b[k] - a[k]); if (std::abs(z) > std::ldexp(1.0L, F)) z = std::ldexp(1.0L, F - 1); c[k] = repr((long long)z); }
        if (s.chance(1, 2)) { int k = s.draw(2); long long d = (long long)s.in(-3, 3); if (s.chance(1, 3)) d = d << s.draw(20); c[k] = repr(c[k] + d); }
    }
    if (s.chance(1, 6)) { a[1] = b[1]; if (s.chance(1, 2)) c[1] = a[1]; } if (s.chance(1, 10)) c = s.chance(1, 2) ? a : b;
    int e = s.in(-30, 30); if (M != 53) e = s.in(-8, 8); auto f = [&](const L2 &p) { std::array<T, 2> r; for (int k = 0; k < 2; k++) { r[k] = std::ldexp(T(p[k]), e - F); } return r; }; auto A = f(a), B = f(b), C = f(c); for (int k = 0; k < 2; k++) { if ((long long)std::ldexp((long double)A[k], F - e) != a[k] || (long long)std::ldexp((long double)B[k], F - e) != b[k] || (long long)std::ldexp((long double)C[k], F - e) != c[k]) throw pbt::Discard{}; }
    int w = sg(det(a, b, c)); s << "a=(" << A[0] << "," << A[1] << ") b=(" << B[0] << "," << B[1] << ") c=(" << C[0] << "," << C[1] << ")"; REQUIRE_MSG(sgf(gbs::orient2d(A, B, C)) == w, "orientation " << gbs::orient2d(A, B, C) << " instead of sign " << w); REQUIRE(sgf(gbs::orient2d(B, C, A)) == w && sgf(gbs::orient2d(C, A, B)) == w && sgf(gbs::orient2d(B, A, C)) == -w && sgf(gbs::orient2d(A, C, B)) == -w && sgf(gbs::orient2d(C, B, A)) == -w);
    long double d = std::abs((long double)det(a, b, c)), m = std::abs((long double)(a[0] - c[0]) * (long double)(b[1] - c[1])) + 1; if (d > 1e-10L * m * (M == 53 ? 1 : 1e7)) REQUIRE(sgf(gbs::orient_2d(A, B, C)) == w); if (how) s.nontrivial(); s.label(w ? d < 1e-12L * m ? "nearly aligned" : "turn" : "aligned");
}
PBT_ARM(orientation, 6000, 200000) { orient<double>(s); }
PBT_ARM(orientation_float, 4000, 100000) { orient<float>(s); }
static P2 grid(Src &s, int n) { return {double(s.in(-n, n)), double(s.in(-n, n))}; }
static long long d2(const P2 &a, const P2 &b, const P2 &c) { return (long long)((a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0])); }
PBT_ARM(circle_sign, 3000, 90000)
{
    int n = s.chance(1, 2) ? 4 : 60; P2 a = grid(s, n), b = grid(s, n), c = grid(s, n), d = grid(s, n); if (s.chance(1, 4)) { P2 o = grid(s, n); double x = s.in(1, n), y = s.in(0, n); P2 q[8] = {{x, y}, {-y, x}, {-x, -y}, {y, -x}, {y, x}, {-x, y}, {x, -y}, {-y, -x}}; a = o + q[s.draw(8)]; b = o + q[s.draw(8)]; c = o + q[s.draw(8)]; d = o + q[s.draw(8)]; }
    s << showp(std::vector<P2>{a, b, c, d}, 4); auto q = [&](const P2 &p, long long *r) { r[0] = (long long)(p[0] - d[0]); r[1] = (long long)(p[1] - d[1]); r[2] = r[0] * r[0] + r[1] * r[1]; }; long long A[3], B[3], C[3]; q(a, A); q(b, B); q(c, C); I w = I(A[0]) * (I(B[1]) * C[2] - I(B[2]) * C[1]) - I(A[1]) * (I(B[0]) * C[2] - I(B[2]) * C[0]) + I(A[2]) * (I(B[0]) * C[1] - I(B[1]) * C[0]);
    REQUIRE_MSG(sgf(gbs::in_circle(a, b, c, d)) == sg(w), "in_circle"); REQUIRE(sgf(gbs::in_circle(b, c, a, d)) == sg(w) && sgf(gbs::in_circle(b, a, c, d)) == -sg(w)); long long o = d2(a, b, c); REQUIRE(sgf(gbs::orient_2d(a, b, c)) == sgf(o) && (gbs::are_ccw(a, b, c) != 0) == (o >= 0)); if (o > 0) { auto f = gbs::make_shared_h_face<double, 2>(std::list{gbs::make_shared_h_edge<double, 2>(a), gbs::make_shared_h_edge<double, 2>(b), gbs::make_shared_h_edge<double, 2>(c)}); REQUIRE(sgf(gbs::in_circle(d, f)) == sg(w)); REQUIRE(gbs::is_ccw(f) > 0); }
    if (o) { auto x = gbs::circle_center(a, b, c); double r = dist(x, a); REQUIRE_MSG(std::abs(dist(x, b) - r) < 1e-9 * (1 + r) * (1 + r) && std::abs(dist(x, c) - r) < 1e-9 * (1 + r) * (1 + r), "centre " << show(x)); double k = s.sym(3), m = s.sym(3), h = s.sym(2); P3 A3{a[0], a[1], k}, B3{b[0], b[1], m}, C3{c[0], c[1], h}; auto y = gbs::sphere_center(A3, B3, C3); r = dist(y, A3); REQUIRE_MSG(std::abs(dist(y, B3) - r) < 1e-9 * (1 + r) * (1 + r) && std::abs(dist(y, C3) - r) < 1e-9 * (1 + r) * (1 + r), "sphere centre " << show(y) << " at " << dist(y, A3) << ", " << dist(y, B3) << ", " << dist(y, C3)); double ar = gbs::tri_area(a, b, c); REQUIRE(ar == std::abs(o) / 2.); REQUIRE(std::abs(gbs::tri_area(P3{a[0], a[1], 7}, P3{b[0], b[1], 7}, P3{c[0], c[1], 7}) - ar) < 1e-9 * (1 + ar));
        auto in = gbs::incenter(a, b, c); double pr = gbs::perimeter(a, b, c), rho = 2 * ar / pr; REQUIRE(std::abs(pr - dist(a, b) - dist(b, c) - dist(c, a)) < 1e-11 * pr); const P2 *t[4] = {&a, &b, &c, &a}; for (int i = 0; i < 3; i++) { double h = ((*t[i + 1])[0] - (*t[i])[0]) * (in[1] - (*t[i])[1]) - ((*t[i + 1])[1] - (*t[i])[1]) * (in[0] - (*t[i])[0]); REQUIRE_MSG(std::abs(h / dist(*t[i], *t[i + 1]) - (o > 0 ? rho : -rho)) < 1e-9 * (1 + pr), "centre of the inscribed circle"); } }
    else { auto x = gbs::circle_center(a, b, c); REQUIRE(std::isnan(x[0]) && std::isnan(x[1])); auto y = gbs::sphere_center(P3{a[0], a[1], 0}, P3{b[0], b[1], 0}, P3{c[0], c[1], 0}); REQUIRE_MSG(std::isnan(y[0]), "sphere through aligned points"); }
    s.nontrivial(w == 0 || o == 0 || n < 5); s.label(w == 0 ? "cocircular" : "plain");
}
PBT_ARM(triangle, 3000, 90000)
{
    int n = s.chance(1, 2) ? 5 : 90; P2 a = grid(s, n), b = grid(s, n), c = grid(s, n), d = grid(s, n); long long o = d2(a, b, c); DISCARD_IF(o == 0); if (s.chance(1, 3)) { int i = s.draw(3), k = s.in(0, 4); const P2 *t[4] = {&a, &b, &c, &a}; d = (*t[i] * double(4 - k) + *t[i + 1] * double(k)); d = d * 0.25; }
    // everything on the quarter grid: exact
    auto q = [](const P2 &p) { return L2{(long long)(p[0] * 4), (long long)(p[1] * 4)}; }; int w = sgf(o), x = sg(det(q(a), q(b), q(d))) * w, y = sg(det(q(b), q(c), q(d))) * w, z = sg(det(q(c), q(a), q(d))) * w; bool in = x >= 0 && y >= 0 && z >= 0, on = in && (!x || !y || !z); s << showp(std::vector<P2>{a, b, c, d}, 4) << (on ? " on" : in ? " in" : " out"); REQUIRE_MSG(gbs::in_triangle(a, b, c, d) == in && gbs::in_triangle(b, a, c, d) == in, "in_triangle");
    if (!on && x && y && z) REQUIRE_MSG(gbs::in_triangle_barycentric(a, b, c, d) == in && gbs::in_triangle_barycentric(c, b, a, d) == in, "in_triangle_barycentric"); REQUIRE(gbs::in_triangle_barycentric(a, b, c, a) && gbs::in_triangle_barycentric(a, b, c, b) && gbs::in_triangle_barycentric(a, b, c, c));
    auto [u, v] = gbs::triangle_barycentric_coordinates(a, b, c, d); double k = 1e-9 * (1 + mag(d)) * (1 + std::abs(u) + std::abs(v)) * 100; for (int i = 0; i < 2; i++) REQUIRE_MSG(std::abs(a[i] + u * (c[i] - a[i]) + v * (b[i] - a[i]) - d[i]) < k, "barycentric coordinates " << u << "," << v); auto uv = gbs::computeUV(a, b, c, d); for (int i = 0; i < 2; i++) REQUIRE(std::abs(a[i] + uv[0] * (b[i] - a[i]) + uv[1] * (c[i] - a[i]) - d[i]) < k);
    P3 A{a[0], a[1], a[0] - 2 * a[1]}, B{b[0], b[1], b[0] - 2 * b[1]}, C{c[0], c[1], c[0] - 2 * c[1]}, D{d[0], d[1], d[0] - 2 * d[1]}; auto U = gbs::computeUV(A, B, C, D); REQUIRE(std::abs(U[0] - uv[0]) + std::abs(U[1] - uv[1]) < k); s.nontrivial(on || n < 9); s.label(on ? "on an edge" : in ? "inside" : "outside");
}
PBT_ARM(segments, 4000, 120000)
{
    int n = s.chance(1, 2) ? 4 : 90; P2 a = grid(s, n), b = grid(s, n), c = grid(s, n), d = grid(s, n), p = grid(s, n), D{double(s.in(-5, 5)), double(s.in(-5, 5))}; if (s.chance(1, 2)) c = a + P2{double(s.in(-3, 3)), 0.}; long long abc = d2(a, b, c), abd = d2(a, b, d), cda = d2(c, d, a), cdb = d2(c, d, b); bool w = sgf(abc) * sgf(abd) < 0 && sgf(cda) * sgf(cdb) < 0; s << showp(std::vector<P2>{a, b, c, d}, 4); REQUIRE_MSG(gbs::seg_seg_strict_intersection(a, b, c, d) == w && gbs::seg_seg_strict_intersection(d, c, a, b) == w && gbs::seg_seg_strict_intersection(b, a, c, d) == w, "segments crossing: " << w);
    DISCARD_IF(a == b); if (s.chance(1, 2)) { int k = s.in(-2, 6); p = a + (b - a) * (k * 0.25); } auto q = [](const P2 &x) { return L2{(long long)(x[0] * 4), (long long)(x[1] * 4)}; }; bool on = det(q(a), q(b), q(p)) == 0 && p[0] >= std::min(a[0], b[0]) && p[0] <= std::max(a[0], b[0]) && p[1] >= std::min(a[1], b[1]) && p[1] <= std::max(a[1], b[1]); REQUIRE_MSG(gbs::on_segment(a, b, p) == on && gbs::on_segment(b, a, p) == on, "point " << show(p) << " on the segment: " << on);
    // ray from p along D: crosses [a,b[
    auto A = q(a), B = q(b), C = q(p); I s1x = B[0] - A[0], s1y = B[1] - A[1], dx = (long long)D[0], dy = (long long)D[1], de = -dx * s1y + s1x * dy; bool r = false; if (de != 0) { I sn = -s1y * (A[0] - C[0]) + s1x * (A[1] - C[1]), tn = dx * (A[1] - C[1]) - dy * (A[0] - C[0]); if (de < 0) { sn = -sn; tn = -tn; de = -de; } r = sn > 0 && tn >= 0 && tn < de; } REQUIRE_MSG(gbs::seg_D_strict_end_intersection(a, b, p, D) == r, "ray from " << show(p) << " along " << show(D) << ": " << r); if (D[1] == 0 && D[0] > 0) REQUIRE(gbs::seg_H_strict_end_intersection(a, b, p) == r); s.nontrivial(n < 5 || on || w); s.label(w ? "crossing" : "apart");
}
PBT_ARM(polygon, 2500, 80000)
{
    int n = s.in(3, 14), kind = s.draw(3); std::vector<P2> p(n); auto r = s.bulk(); long long area2 = 0; double g = s.chance(1, 2) ? 6 : 40;
    if (kind == 0) for (auto &x : p) x = grid(s, int(g)); // any polygon, even one which crosses itself
    else for (int i = 0; i < n; i++) { double t = 6.283185307179586 * (i + 0.8 * r.range(0, 1)) / n, m = r.range(0.25, 1) * g; p[i] = {std::round(4 * m * std::cos(t)) / 4, std::round(4 * m * std::sin(t)) / 4}; }
    if (kind == 2) std::reverse(p.begin(), p.end()); for (int i = 0; i < n; i++) DISCARD_IF(p[i] == p[(i + 1) % n]); double ox = s.in(-3, 3), oy = s.in(-3, 3); for (auto &x : p) { x[0] += ox; x[1] += oy; } auto h = gbs::make_HalfEdges<double, 2>(p); REQUIRE(h.size() == size_t(n)); for (int i = 0; i < n; i++) REQUIRE(h[i]->vertex->coords == p[i] && h[i]->next == h[(i + 1) % n] && h[(i + 1) % n]->previous == h[i]);
    s << showp(p, 14); auto q = [](const P2 &x) { return L2{(long long)std::llround(x[0] * 4), (long long)std::llround(x[1] * 4)}; }; for (int i = 0; i < n; i++) { auto a = q(p[i]), b = q(p[(i + 1) % n]); area2 += a[0] * b[1] - a[1] * b[0]; } REQUIRE_MSG(gbs::are_edges_2d_ccw<double>(h) == (area2 > 0), "direction of the polygon"); auto mm = gbs::getCoordsMinMax(p); for (auto &x : p) for (int k = 0; k < 2; k++) REQUIRE(mm.first[k] <= x[k] && x[k] <= mm.second[k]);
    std::list<std::shared_ptr<gbs::HalfEdge<double, 2>>> hl(h.begin(), h.end()); int inside = 0; for (int t = 0; t < 12; t++) { P2 x; int how = s.draw(4); if (how == 0) { x = p[s.draw(n)]; x[0] += s.in(-3, 3); } else if (how == 1) { int i = s.draw(n); x = (p[i] + p[(i + 1) % n]) * 0.5; x = {std::round(4 * x[0]) / 4, std::round(4 * x[1]) / 4}; } else x = {double(s.in(-int(g) * 4, int(g) * 4)) / 4 + ox, double(s.in(-int(g) * 4, int(g) * 4)) / 4 + oy}; auto X = q(x); bool on = false, in = false; for (int i = 0; i < n; i++) { auto a = q(p[i]), b = q(p[(i + 1) % n]); I d = det(a, b, X); if (d == 0 && X[0] >= std::min(a[0], b[0]) && X[0] <= std::max(a[0], b[0]) && X[1] >= std::min(a[1], b[1]) && X[1] <= std::max(a[1], b[1])) on = true; if ((a[1] > X[1]) != (b[1] > X[1]) && ((d > 0) == (b[1] > a[1]))) in = !in; } REQUIRE_MSG(gbs::is_inside(x, h) == (on || in) && gbs::is_inside(x, hl) == (on || in), "point " << show(x) << (on ? " on" : in ? " in" : " out")); inside += in; }
    s.nontrivial(n > 3); s.label(inside ? "some inside" : "none inside");
}
