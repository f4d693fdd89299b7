// G01 products, G02 inside, G03 winding number, G04 distance predicates, G05 intersection and scaling
#include <ce/ce.h>
#ifdef MSVC_MATH // G08: the same for what Microsoft's compiler is given
#include <emmintrin.h>
#define _MSC_VER 1930
#define __int64 long
#include <ce/math.h>
#undef __int64
#undef _MSC_VER
#else
#include <ce/math.h>
#endif
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#include "vs.h"
using w = __int128; using v2 = ce::vec2<int32_t>; using v3 = ce::vec3<int32_t>; using l2 = ce::vec2<int64_t>;
static unsigned pick(unsigned lo, unsigned hi, const char* n) { return (unsigned)vs_concretize(vs_range(lo, hi, n)); }
static int32_t any32(const char* n) { return vs_any<int32_t>(n); }
static int64_t srange(int64_t lo, int64_t hi, const char* n) { return (int64_t)vs_srange(lo, hi, n); }
static bool fits(w x) { return x >= INT64_MIN && x <= INT64_MAX; }
static const int32_t MAX = 0x7fffffff;
#ifdef MSVC_MATH
static bool free_products; static struct { int64_t a, b; w p; } known[4]; static unsigned nknown;
// any product of the right sign and size, the same one for the same operands
static w product(int64_t a, int64_t b)
{
    for (unsigned i = 0; i < nknown; ++i) if (((known[i].a == a) & (known[i].b == b)) | ((known[i].a == b) & (known[i].b == a))) return known[i].p;
    w p = (w)((unsigned __int128)vs_any<uint64_t>("high") << 64 | vs_any<uint64_t>("low")); w top = (w)1 << 126;
    vs_assume((p <= top) & (p >= -top) & ((p == 0) == ((a == 0) | (b == 0)))); vs_assume((p == 0) | ((p < 0) == ((a < 0) != (b < 0)))); if (nknown < 4) known[nknown++] = { a, b, p }; return p;
}
extern "C" long _mul128(long a, long b, long* hi) { w p = free_products ? product(a, b) : (w)a * b; *hi = (long)(p >> 64); return (long)p; }
extern "C" long _div128(long hi, long lo, long d, long* r)
{
    vs_check(d != 0, "no division by zero"); if (hi == lo >> 63) { vs_check(lo != INT64_MIN || d != -1, "the processor's quotient fits"); *r = lo % d; return lo / d; }
    w n = (w)((unsigned __int128)(w)hi << 64 | (uint64_t)lo), q = n / d; vs_check(fits(q), "the processor's quotient fits"); *r = (long)(n - q * d); return (long)q;
}
VS_ENTRY(g_less_free) { free_products = true; int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"), c = vs_any<int64_t>("c"), d = vs_any<int64_t>("d"); bool r = ce::ab_less_cd(a, b, c, d); free_products = true; vs_check(r == (product(a, b) < product(c, d)), "comparison of products is exact"); vs_cover("completes"); }
VS_ENTRY(g_less_32) { int64_t a = vs_any<int8_t>("a"), b = vs_any<int8_t>("b"), c = vs_any<int8_t>("c"), d = vs_any<int8_t>("d"); bool r = ce::ab_less_cd(a, b, c, d); vs_observe(r); vs_check(r == (a * b < c * d), "comparison of products is exact"); vs_cover("completes"); }
VS_ENTRY(g_muldiv_64_wide)
{
    static const int32_t bs[] = { -1, 3, INT32_MIN }; static const int sh[] = { 0, 15, 16, 31, 62 };
    int32_t b = bs[pick(0, 2, "b")]; int64_t d = (int64_t)1 << sh[pick(0, 4, "d")]; if (pick(0, 1, "sign")) d = -d; int64_t n = vs_any<int64_t>("n"); vs_assume(n != INT64_MIN);
    v2 r = ce::muldiv(v2{ b, 0 }, n, d); w p = (w)b * n; int k = __builtin_ctzll((uint64_t)d); w q = p < 0 ? -(-p >> k) : p >> k; if (d < 0) q = -q; vs_observe((uint64_t)r.x); vs_check((q > INT32_MAX) | (q < INT32_MIN) | (r.x == (int32_t)q), "scaling divides the exact product"); vs_check(r.y == 0, "zero stays zero"); vs_cover("completes");
}
#endif

//---- G01
VS_ENTRY(g_scalar)
{
    int32_t a = any32("a"), b = any32("b"); vs_check(ce::sqrx(a) == (w)a * a && ce::dotx(a, b) == (w)a * b, "products of 32-bit scalars are exact"); vs_observe(ce::dotx(a, b)); int64_t c = vs_any<int64_t>("c"), d = vs_any<int64_t>("d"); vs_assume(fits((w)c * d)); vs_check(ce::dotx(c, d) == (w)c * d, "products of 64-bit scalars are exact"); vs_cover("completes");
}
VS_ENTRY(g_scalar_sqr) { int64_t c = vs_any<int64_t>("c"); vs_assume(fits((w)c * c)); vs_check(ce::sqrx(c) == (w)c * c, "squares of 64-bit scalars are exact"); vs_cover("completes"); }
VS_ENTRY(g_vec2)
{
    v2 a{ any32("ax"), any32("ay") }, b{ any32("bx"), any32("by") }; w d = (w)a.x * b.x + (w)a.y * b.y, c = (w)a.x * b.y - (w)a.y * b.x, s = (w)a.x * a.x + (w)a.y * a.y;
    vs_observe(ce::crossx(a, b)); vs_check(!fits(d) | (ce::dotx(a, b) == d), "dot product is exact"); vs_check(!fits(c) | (ce::crossx(a, b) == c), "cross product is exact"); vs_check(!fits(s) | (ce::sqrx(a) == s), "squared length is exact"); vs_cover("completes");
}
VS_ENTRY(g_vec3)
{
    v3 a{ any32("ax"), any32("ay"), any32("az") }, b{ any32("bx"), any32("by"), any32("bz") }; w d = (w)a.x * b.x + (w)a.y * b.y + (w)a.z * b.z, x = (w)a.y * b.z - (w)a.z * b.y, y = (w)a.z * b.x - (w)a.x * b.z, z = (w)a.x * b.y - (w)a.y * b.x; auto c = ce::crossx(a, b); vs_observe(c.x); vs_observe(c.y); vs_observe(c.z);
    w ab = (w)a.x * b.x + (w)a.y * b.y; vs_check(!(fits(d) & fits(ab)) | (ce::dotx(a, b) == d), "dot product is exact"); vs_check((!fits(x) | (c.x == x)) & (!fits(y) | (c.y == y)) & (!fits(z) | (c.z == z)), "cross product is exact"); vs_cover("completes");
}
VS_ENTRY(g_less) { int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"), c = vs_any<int64_t>("c"), d = vs_any<int64_t>("d"); bool r = ce::ab_less_cd(a, b, c, d); vs_observe(r); vs_check(r == ((w)a * b < (w)c * d), "comparison of products is exact"); vs_cover("completes"); }
template<class V, class F> static void each(V const& v, F f) { f(0, v.x); f(1, v.y); if constexpr (V::size > 2) f(2, v.z); }
template<class V, class T> static void arith()
{
    T a[3], b[3], k = (T)srange(-20000, 20000, "k"); for (auto& x : a) x = (T)srange(-30000, 30000, "a"); for (auto& x : b) x = (T)srange(-30000, 30000, "b"); V p{}, q{}; p.x = a[0]; p.y = a[1]; q.x = b[0]; q.y = b[1]; if constexpr (V::size > 2) p.z = a[2], q.z = b[2]; const int n = V::size; bool ok = true; auto want = [&](V const& v, auto f) { each(v, [&](int i, T x) { vs_observe((uint64_t)x); ok &= x == f(i); }); };
    want(p + q, [&](int i) { return a[i] + b[i]; }); want(p - q, [&](int i) { return a[i] - b[i]; }); want(p * k, [&](int i) { return a[i] * k; }); vs_check(ok, "arithmetic acts on each component"); ok = true;
    V r = p; V* z = &(r += q); want(r, [&](int i) { return a[i] + b[i]; }); ok &= z == &r; r = p; z = &(r -= q); want(r, [&](int i) { return a[i] - b[i]; }); ok &= z == &r; r = p; z = &(r *= k); want(r, [&](int i) { return a[i] * k; }); ok &= z == &r; vs_check(ok, "compound assignment changes each component in place"); ok = true;
    T dv = 7 * (T)pick(0, 2, "divisor") - 8; r = p; want(p / dv, [&](int i) { return a[i] / dv; }); z = &(r /= dv); want(r, [&](int i) { return a[i] / dv; }); vs_check(ok && z == &r, "division divides each component");
    bool eq = true, all = true; for (int i = 0; i < n; ++i) eq &= a[i] == b[i], all &= a[i] == k; vs_check((p == q) == eq && (p != q) == !eq, "vectors are equal when every component is"); vs_check((p == k) == all && (p != k) == !all, "a vector equals a scalar when every component does"); vs_cover("completes");
}
VS_ENTRY(g_arith_v2) { arith<v2, int32_t>(); }
VS_ENTRY(g_arith_v3) { arith<v3, int32_t>(); }
VS_ENTRY(g_arith_l2) { arith<l2, int64_t>(); }

//---- G02
VS_ENTRY(g_inside)
{
    v2 a{ any32("ax"), any32("ay") }, b{ any32("bx"), any32("by") }; bool ab = ce::inside(a, b), ba = ce::inside(b, a), same = (a.x == b.x) & (a.y == b.y); vs_observe(ab); w c = (w)a.x * b.y - (w)a.y * b.x; vs_check((c >= 0) | ab, "a negative cross product is inside"); vs_check((c <= 0) | !ab, "a positive cross product is outside"); vs_check(same ? !ab & !ba : ab != ba, "exactly one of the two orders is inside, neither for equal vectors"); vs_cover("completes");
}
VS_ENTRY(g_inside_64)
{
    l2 a{ any32("ax"), any32("ay") }, b{ any32("bx"), any32("by") }; bool ab = ce::inside(a, b), ba = ce::inside(b, a), same = (a.x == b.x) & (a.y == b.y); w c = (w)a.x * b.y - (w)a.y * b.x; vs_check(((c >= 0) | ab) & ((c <= 0) | !ab), "inside follows the sign of the cross product"); vs_check(same ? !ab & !ba : ab != ba, "exactly one of the two orders is inside, neither for equal vectors"); vs_cover("completes");
}
static v2 pt(int m) { return { (int32_t)srange(-m, m, "x"), (int32_t)srange(-m, m, "y") }; }
static bool neg(v2 a, v2 b) { return (int64_t)a.x * b.y < (int64_t)a.y * b.x; } // sign of the cross product
static bool pos(v2 a, v2 b) { return (int64_t)a.x * b.y > (int64_t)a.y * b.x; }
static unsigned tri(v2 a, v2 b, v2 c) { return (unsigned)ce::inside(a, b) & (unsigned)ce::inside(b, c) & (unsigned)ce::inside(c, a); } // positions relative to the point
static v2 org() { return { 0, 0 }; }
template<int M> static void g_edge()
{   // the point (the origin) strictly between a and b, c and d on either side
    v2 a = pt(M), b = pt(M), c = pt(M), d = pt(M); vs_assume(!neg(a, b) & !pos(a, b) & ((int64_t)a.x * b.x + (int64_t)a.y * b.y < 0)); v2 ab{ b.x - a.x, b.y - a.y }, ac{ c.x - a.x, c.y - a.y }, ad{ d.x - a.x, d.y - a.y }; vs_assume(neg(ab, ac) & pos(ab, ad));
    unsigned s = tri(a, b, c), t = tri(b, a, d); vs_observe(s); vs_check(s + t == 1, "a point on a shared edge is inside exactly one of the two triangles"); vs_cover("completes");
}
template<int M, unsigned N> static void g_fan()
{   // triangles around a vertex at the point
    v2 v[N]; for (auto& x : v) x = pt(M); for (unsigned i = 0; i < N; ++i) vs_assume(neg(v[i], v[(i + 1) % N])); unsigned s = 0; for (unsigned i = 0; i < N; ++i) s += tri(org(), v[i], v[(i + 1) % N]); vs_observe(s); vs_check(s == 1, "a point at a shared vertex is inside exactly one of the triangles"); vs_cover("completes");
}
template<int M> static void g_tri()
{
    v2 a = pt(M), b = pt(M), c = pt(M); unsigned s = tri(a, b, c), n = (unsigned)neg(a, b) & (unsigned)neg(b, c) & (unsigned)neg(c, a), o = (unsigned)pos(a, b) | (unsigned)pos(b, c) | (unsigned)pos(c, a); vs_check((!n | s) & (!o | !s), "strictly inside is inside and strictly outside is outside"); vs_cover("completes");
}
VS_ENTRY(g_edge_3) { g_edge<3>(); }
VS_ENTRY(g_edge_7) { g_edge<7>(); }
VS_ENTRY(g_edge_15) { g_edge<15>(); }
VS_ENTRY(g_fan_3_3) { g_fan<3, 3>(); }
VS_ENTRY(g_fan_3_15) { g_fan<15, 3>(); }
VS_ENTRY(g_fan_3_7) { g_fan<7, 3>(); }
VS_ENTRY(g_fan_4_3) { g_fan<3, 4>(); }
VS_ENTRY(g_fan_4_7) { g_fan<7, 4>(); }
VS_ENTRY(g_tri_7) { g_tri<7>(); }
VS_ENTRY(g_tri_31) { g_tri<31>(); }

//---- G03. Against the winding number from a vertical ray; the point is kept off the boundary
template<class T> struct poly
{
    using V = ce::vec2<T>; unsigned n; V p; V* v;
    poly(unsigned n, int M) : n(n), p{ (T)srange(-M, M, "px"), (T)srange(-M, M, "py") }, v(make(n)) { for (unsigned i = 0; i < n; ++i) v[i] = V{ (T)srange(-M, M, "x"), (T)srange(-M, M, "y") }; }
    static V* make(unsigned n) { return static_cast<V*>(__builtin_malloc(sizeof(V) * (n + !n))); }
    size_t ref()
    {
        int64_t e = 0; for (unsigned i = 0; i < n; ++i)
        {
            V a = v[(i + n - 1) % n], b = v[i]; int64_t ax = (int64_t)p.x - a.x, ay = (int64_t)p.y - a.y, bx = (int64_t)p.x - b.x, by = (int64_t)p.y - b.y; int64_t q = ax * by, r = ay * bx;
            vs_assume((q != r) | ((ax > 0) & (bx > 0)) | ((ax < 0) & (bx < 0)) | ((ay > 0) & (by > 0)) | ((ay < 0) & (by < 0)));
            // upward ray: the edge passes above the point, from left to right or from right to left
            e += (int64_t)((ax <= 0) & (bx > 0) & (q > r)) - (int64_t)((ax > 0) & (bx <= 0) & (q < r));
        }
        return (size_t)e;
    }
};
template<int M, class T> static void polygon(unsigned lo, unsigned hi) { unsigned n = pick(lo, hi, "vertices"); poly<T> y(n, M); size_t e = y.ref(), g = ce::in_polygon(y.p, n, y.v); vs_observe(g); vs_check(g == e, "the winding number of the polygon around the point"); vs_cover("completes"); }
template<int M, class T> static void polygon_rev(unsigned n) { poly<T> y(n, M); y.ref(); auto* r = y.make(n); for (unsigned i = 0; i < n; ++i) r[i] = y.v[n - 1 - i]; size_t g = ce::in_polygon(y.p, n, y.v), h = ce::in_polygon(y.p, n, r); vs_check(h == 0 - g, "the reversed polygon winds the other way"); vs_cover("completes"); }
template<int M, class T> static void polygon_rot(unsigned n) { poly<T> y(n, M); auto* r = y.make(n); for (unsigned i = 0; i < n; ++i) r[i] = y.v[(i + 1) % n]; size_t g = ce::in_polygon(y.p, n, y.v), h = ce::in_polygon(y.p, n, r); vs_check(h == g, "the first vertex does not matter"); vs_cover("completes"); }
VS_ENTRY(g_poly_3) { polygon<7, int32_t>(0, 3); }
VS_ENTRY(g_poly_4) { polygon<3, int32_t>(4, 4); }
VS_ENTRY(g_poly_64) { polygon<7, int64_t>(3, 3); }
VS_ENTRY(g_poly_5) { polygon<2, int32_t>(5, 5); }
VS_ENTRY(g_poly_rev_3) { polygon_rev<7, int32_t>(3); }
VS_ENTRY(g_poly_rev_4) { polygon_rev<7, int32_t>(4); }
VS_ENTRY(g_poly_rot_3) { polygon_rot<63, int32_t>(3); }
VS_ENTRY(g_poly_rot_4) { polygon_rot<31, int32_t>(4); }
VS_ENTRY(g_poly_3_big) { polygon<31, int32_t>(3, 3); }
VS_ENTRY(g_poly_4_big) { polygon<7, int32_t>(4, 4); }
VS_ENTRY(g_poly_exact)
{   // the whole coordinate range whose differences have 31 bits: crossings of the ray to the right, none rounded
    const int64_t M = 0x3fffffff; v2 v[3], p{ (int32_t)srange(-M, M, "px"), (int32_t)srange(-M, M, "py") }; for (auto& x : v) x = v2{ (int32_t)srange(-M, M, "x"), (int32_t)srange(-M, M, "y") }; size_t e = 0;
    for (unsigned i = 0; i < 3; ++i) { v2 a = v[(i + 2) % 3], b = v[i]; int64_t ax = (int64_t)p.x - a.x, ay = (int64_t)p.y - a.y, bx = (int64_t)p.x - b.x, by = (int64_t)p.y - b.y, c = ax * by - ay * bx; e += (size_t)((ay >= 0) & (by < 0) & (c > 0)) - (size_t)((ay < 0) & (by >= 0) & (c < 0)); }
    size_t g = ce::in_polygon(p, 3, v); vs_observe(g); vs_check(g == e, "crossings are decided without rounding"); vs_check(ce::in_polygon(p, 0, v) == 0, "an empty polygon contains nothing"); vs_cover("completes");
}

//---- G04. The identity |p|^2 |d|^2 = (p.d)^2 + (p x d)^2 in the geometric form (small coordinates), the same polynomials in 128 bits otherwise
struct rr_in { int32_t px, py, dx, dy; int64_t rr, pp, dp, dd, c, ee; };
static rr_in rr_fill(rr_in i)
{
    i.pp = (int64_t)i.px * i.px + (int64_t)i.py * i.py; i.dp = (int64_t)i.px * i.dx + (int64_t)i.py * i.dy; i.dd = (int64_t)i.dx * i.dx + (int64_t)i.dy * i.dy; i.c = (int64_t)i.px * i.dy - (int64_t)i.py * i.dx; int64_t ux = (int64_t)i.px - i.dx, uy = (int64_t)i.py - i.dy; i.ee = ux * ux + uy * uy; return i;
}
static void rr_check(rr_in const& i, bool l, unsigned kind, bool exact)
{   // exact: behind the start the end is farther away than the start, |p - d|^2 = |p|^2 - 2 p.d + |d|^2; shown for the small coordinates
    bool p = i.pp < i.rr, e = i.ee < i.rr, in = (i.dp >= 0) & (i.dp <= i.dd), r;
    switch (kind)
    {
    case 0: r = ce::in_range_rr(i.px, i.py, i.rr); vs_check(r == p, "in range of a point"); break;
    case 1: r = ce::in_range_rr_line(i.px, i.py, i.rr, i.dx, i.dy); vs_check(r == l, "in range of a line"); break;
    case 2: r = ce::in_range_rr_edge(i.px, i.py, i.rr, i.dx, i.dy); vs_check(r == (l & in), "in range of an edge, with the perpendicular foot on it"); break;
    case 3: r = ce::in_range_rr_ray(i.px, i.py, i.rr, i.dx, i.dy); vs_check(r == (p | (l & (i.dp >= 0))), "in range of a ray"); break;
    default: r = ce::in_range_rr_segment(i.px, i.py, i.rr, i.dx, i.dy); vs_check(r == (p | (exact ? e & (i.dp >= 0) : e) | (l & in)), "in range of a segment"); break;
    }
    vs_observe(r); vs_cover("completes");
}
template<int64_t M> static void rr_geo(unsigned k)
{
    rr_in i{ (int32_t)pick(0, 2 * M, "px") - (int32_t)M, (int32_t)srange(-M, M, "py"), (int32_t)pick(0, 2 * M, "dx") - (int32_t)M, (int32_t)pick(0, 2 * M, "dy") - (int32_t)M, srange(0, 8 * M * M, "rr") }; i = rr_fill(i); bool l = i.dd == 0 ? i.pp < i.rr : i.c * i.c < i.rr * i.dd; rr_check(i, l, k, false);
}
template<int64_t M> static void rr_exact(unsigned k)
{
    rr_in i{ (int32_t)srange(-M, M, "px"), (int32_t)srange(-M, M, "py"), (int32_t)srange(-M, M, "dx"), (int32_t)srange(-M, M, "dy"), srange(0, INT64_MAX, "rr") }; i = rr_fill(i); bool l = (i.pp < i.rr) | ((w)i.dd * (i.pp - i.rr) < (w)i.dp * i.dp); rr_check(i, l, k, true);
}
VS_ENTRY(rr_point) { rr_exact<MAX>(0); }
VS_ENTRY(rr_geo_line) { rr_geo<3>(1); }
VS_ENTRY(rr_geo_edge) { rr_geo<3>(2); }
VS_ENTRY(rr_geo_ray) { rr_geo<3>(3); }
VS_ENTRY(rr_geo_segment) { rr_geo<3>(4); }
VS_ENTRY(rr_geo_line_big) { rr_geo<5>(1); }
VS_ENTRY(rr_geo_edge_big) { rr_geo<5>(2); }
VS_ENTRY(rr_geo_ray_big) { rr_geo<5>(3); }
VS_ENTRY(rr_geo_segment_big) { rr_geo<5>(4); }
VS_ENTRY(rr_exact_line) { rr_exact<MAX>(1); }
VS_ENTRY(rr_exact_edge) { rr_exact<MAX>(2); }
VS_ENTRY(rr_exact_ray) { rr_exact<MAX>(3); }
VS_ENTRY(rr_exact_segment) { rr_exact<MAX / 2>(4); }
VS_ENTRY(rr_ball)
{
    const int64_t m = MAX / 2; v2 p{ (int32_t)srange(-m, m, "px"), (int32_t)srange(-m, m, "py") }, a{ (int32_t)srange(-m, m, "ax"), (int32_t)srange(-m, m, "ay") }, b{ (int32_t)srange(-m, m, "bx"), (int32_t)srange(-m, m, "by") }; int64_t rr = (int64_t)srange(0, INT64_MAX, "rr");
    vs_check(ce::ball_hits_edge(p, rr, a, b) == ce::in_range_rr_edge(p.x - a.x, p.y - a.y, rr, b.x - a.x, b.y - a.y), "ball_hits_edge is the translated edge test"); vs_check(ce::ball_hits_ray(p, rr, a, b) == ce::in_range_rr_ray(p.x - a.x, p.y - a.y, rr, b.x - a.x, b.y - a.y), "ball_hits_ray is the translated ray test"); vs_cover("completes");
}

//---- G05
VS_ENTRY(g_degrees)
{   // trunc(d * 2^28 / 45), in units of a full turn over 2^31
    int32_t d = any32("degrees"); int64_t r = ce::degrees_to_angle(d); vs_observe((uint64_t)r); d = (int32_t)srange(-359, 359, "degrees in range"); r = ce::degrees_to_angle(d); int64_t e = 45 * r - (int64_t)d * 0x10000000; vs_check((d >= 0) ? (e <= 0) & (e > -45) & (r >= 0) : (e >= 0) & (e < 45) & (r <= 0), "degrees convert to the last unit"); vs_cover("completes");
}
VS_ENTRY(g_degrees_any)
{   // any number of degrees, up to whole turns
    int32_t d = any32("degrees"); uint32_t r = (uint32_t)ce::degrees_to_angle(d); int64_t q = (int64_t)d * 0x10000000 / 45; vs_check(r == (uint32_t)q, "degrees convert to the last unit, up to full turns"); vs_cover("completes");
}
static bool truncated(int64_t q, int64_t x, int64_t n, int64_t d) { int64_t p = x * n, e = p - q * d, ad = d < 0 ? -d : d; return (e > -ad) & (e < ad) & ((e == 0) | ((e < 0) == (p < 0))); }
template<int64_t B, class I> static void muldiv_small()
{
    v2 b{ (int32_t)srange(-B, B, "bx"), (int32_t)srange(-B, B, "by") }; I n = (I)srange(-B, B, "n"), d = (I)pick(1, 2 * B, "d") - (I)B; d -= d <= 0; v2 r = ce::muldiv(b, n, d); vs_observe((uint64_t)(int64_t)r.x); vs_observe((uint64_t)(int64_t)r.y);
    vs_check(truncated(r.x, b.x, n, d), "scaling truncates the exact product toward zero"); vs_check(truncated(r.y, b.y, n, d), "scaling truncates the exact product toward zero"); vs_cover("completes");
}
VS_ENTRY(g_muldiv_32) { muldiv_small<7, int32_t>(); }
VS_ENTRY(g_muldiv_64) { muldiv_small<7, int64_t>(); }
VS_ENTRY(g_muldiv_64_few) { muldiv_small<3, int64_t>(); }
VS_ENTRY(g_muldiv_32_big) { muldiv_small<15, int32_t>(); }
VS_ENTRY(g_muldiv_64_big) { muldiv_small<15, int64_t>(); }
VS_ENTRY(g_muldiv_32_full)
{   // the whole range, no rounding before the division
    v2 b{ any32("bx"), any32("by") }; int32_t n = any32("n"), d = any32("d"); vs_assume(d != 0); v2 r = ce::muldiv(b, n, d); int64_t x = (int64_t)b.x * n / d, y = (int64_t)b.y * n / d; vs_check((x < INT32_MIN) | (x > INT32_MAX) | (r.x == (int32_t)x), "scaling divides the exact product"); vs_check((y < INT32_MIN) | (y > INT32_MAX) | (r.y == (int32_t)y), "scaling divides the exact product"); vs_cover("completes");
}
struct lines { v2 p0, p1, q0, q1; int32_t px, py; int64_t d, t; };
static lines make_lines(int64_t M, bool small)
{
    lines l; v2* vs[] = { &l.p0, &l.p1, &l.q0, &l.q1 }; for (v2* v : vs) *v = v2{ (int32_t)srange(-M, M, "x"), (int32_t)srange(-M, M, "y") };
    if (small) { l.p0 = v2{ 10, -20 }; l.p1 = l.p0 + v2{ (int32_t)pick(0, (unsigned)M, "px"), (int32_t)pick(0, 2 * (unsigned)M, "py") - (int32_t)M }; l.q0 = l.p0 + l.q0; l.q1 = l.q0 + v2{ (int32_t)pick(0, 2 * (unsigned)M, "qx") - (int32_t)M, (int32_t)pick(0, 2 * (unsigned)M, "qy") - (int32_t)M }; } l.px = l.p1.x - l.p0.x, l.py = l.p1.y - l.p0.y; int32_t qx = l.q1.x - l.q0.x, qy = l.q1.y - l.q0.y; l.d = (int64_t)l.px * qy - (int64_t)l.py * qx; l.t = (int64_t)(l.q0.x - l.p0.x) * qy - (int64_t)(l.q0.y - l.p0.y) * qx; return l;
}
template<int64_t M> static void g_intersect()
{   // |r - (p0 + p t/d)| < 1 in each coordinate, the quotient truncated
    lines l = make_lines(M, true); v2 r{ 99, 99 }; bool ok = ce::intersect(l.p0, l.p1, l.q0, l.q1, r); vs_observe(ok); vs_observe((uint64_t)(int64_t)r.x); vs_observe((uint64_t)(int64_t)r.y); vs_check(ok == (l.d != 0), "fails exactly for parallel lines"); if (!ok) { vs_check(r.x == l.p0.x && r.y == l.p0.y, "the first point when there is no intersection"); vs_cover("parallel"); return; }
    int64_t ex = (r.x - (int64_t)l.p0.x) * l.d - l.px * l.t, ey = (r.y - (int64_t)l.p0.y) * l.d - l.py * l.t, ad = l.d < 0 ? -l.d : l.d; vs_check((ex < ad) & (ex > -ad), "within one unit of the exact intersection"); vs_check((ey < ad) & (ey > -ad), "within one unit of the exact intersection"); vs_cover("completes");
}
VS_ENTRY(g_intersect_2) { g_intersect<2>(); }
VS_ENTRY(g_intersect_3) { g_intersect<3>(); }
VS_ENTRY(g_intersect_exact)
{   // the whole range whose differences have 31 bits: nothing is rounded before the last division
    const int64_t M = 0x3fffffff; lines l = make_lines(M, false); v2 r{ 99, 99 }; bool ok = ce::intersect(l.p0, l.p1, l.q0, l.q1, r); vs_check(ok == (l.d != 0), "fails exactly for parallel lines"); if (!ok) return;
    w x = (w)l.px * l.t / l.d, y = (w)l.py * l.t / l.d; vs_check((x > M) | (x < -M) | (r.x == l.p0.x + (int32_t)x), "divides the exact product"); vs_check((y > M) | (y < -M) | (r.y == l.p0.y + (int32_t)y), "divides the exact product"); vs_cover("completes");
}
