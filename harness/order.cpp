// S01 sorting, S02 bounds, Z01 z-order codes, Z02 z-order queries
#include <ce/ce.h>
#include <ce/sort.h>
#include <ce/zorder.h>
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#include "vs.h"
static unsigned pick(unsigned lo, unsigned hi, const char* n) { return (unsigned)vs_concretize(vs_range(lo, hi, n)); }

//---- S01: items that can only be copied and compared with less-than; the range has a guard item on either side
template<class K> struct keyed { K key; uint8_t tag; bool operator<(keyed const& o) const { return key < o.key; } };
template<class T> static T any() { T t; t.key = vs_any<decltype(t.key)>("key"); t.tag = (uint8_t)vs_range(0, 255, "tag"); return t; }
template<class T> static unsigned count(T const* d, unsigned n, T q) { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += (unsigned)(d[i].key == q.key) & (unsigned)(d[i].tag == q.tag); return c; }
template<class T> struct range
{
    T* d; unsigned n; T was[16];
    range(unsigned lo, unsigned hi) { n = pick(lo, hi, "length"); d = static_cast<T*>(__builtin_malloc(sizeof(T) * (n + !n))); for (unsigned i = 0; i < n; ++i) d[i] = was[i] = any<T>(); }
    void same() { T q = any<T>(); vs_check(count(d, n, q) == count(was, n, q), "exactly the items it held before"); }
    void sorted() { unsigned bad = 0; for (unsigned i = 1; i < n; ++i) { vs_observe(d[i].key); bad |= (unsigned)(d[i] < d[i - 1]); } vs_check(!bad, "in non-decreasing order"); same(); vs_cover("completes"); }
};
template<class K, unsigned LO, unsigned HI> static void s_insertion() { range<keyed<K>> r(LO, HI); ce::insertion_sort(r.d, r.d + r.n); r.sorted(); }
template<class K, size_t N, unsigned LO, unsigned HI> static void s_intro() { range<keyed<K>> r(LO, HI); ce::intro_sort<N>(r.d, r.d + r.n); r.sorted(); }
VS_ENTRY(s_insertion_5) { s_insertion<uint32_t, 0, 5>(); }
VS_ENTRY(s_insertion_7) { s_insertion<uint8_t, 6, 7>(); }
VS_ENTRY(s_intro_1) { s_intro<uint16_t, 1, 0, 5>(); }
VS_ENTRY(s_intro_2) { s_intro<uint16_t, 2, 0, 5>(); }
VS_ENTRY(s_intro_3) { s_intro<uint8_t, 3, 0, 5>(); }
VS_ENTRY(s_intro_4) { s_intro<uint8_t, 4, 5, 6>(); }
VS_ENTRY(s_intro_5) { s_intro<uint8_t, 5, 6, 6>(); }
VS_ENTRY(s_intro_def) { s_intro<uint16_t, 128, 0, 4>(); }
VS_ENTRY(s_intro_1_6) { s_intro<uint8_t, 1, 6, 6>(); }
VS_ENTRY(s_intro_2_7) { s_intro<uint8_t, 2, 7, 7>(); }
VS_ENTRY(s_intro_4_7) { s_intro<uint8_t, 4, 7, 7>(); }
template<class K, unsigned LO, unsigned HI> static void s_partition()
{
    range<keyed<K>> r(LO, HI); auto* p = ce::partition(r.d, r.d + r.n); size_t at = (size_t)vs_concretize((uint64_t)(p - r.d)); vs_check(at < r.n, "the pivot lies within the range"); unsigned bad = 0;
    for (unsigned i = 0; i < r.n; ++i) { vs_observe(r.d[i].key); bad |= i < at ? (unsigned)(r.d[at] < r.d[i]) : (unsigned)(r.d[i] < r.d[at]); } vs_check(!bad, "the pivot lies between smaller-or-equal and greater-or-equal items"); r.same(); vs_cover("completes");
}
VS_ENTRY(s_partition_4) { s_partition<uint32_t, 1, 4>(); }
VS_ENTRY(s_partition_6) { s_partition<uint8_t, 5, 6>(); }
VS_ENTRY(s_partition_8) { s_partition<uint8_t, 7, 8>(); }
VS_ENTRY(s_median) { using T = keyed<uint32_t>; T a = any<T>(), b = any<T>(), c = any<T>(), w[3] = { a, b, c }, q = any<T>(); ce::median(a, b, c); T g[3] = { a, b, c }; vs_observe(b.key); vs_check(!(b < a && b < c) && !(a < b && c < b), "median moves the middle item to the middle"); vs_check(count(g, 3, q) == count(w, 3, q), "exactly the items it held before"); vs_cover("completes"); }
VS_ENTRY(s_long)
{   // the default threshold is passed: one item anywhere in a long range of runs is out of place
    unsigned n = pick(127, 129, "length"); auto* d = static_cast<uint32_t*>(__builtin_malloc(4 * n)); unsigned down = pick(0, 1, "order"); auto val = [&](unsigned i) { return 2 + 2 * ((down ? n - 1 - i : i) / 32); }; for (unsigned i = 0; i < n; ++i) d[i] = val(i); unsigned at = pick(0, 4, "where") * ((n - 1) / 4); uint32_t x = vs_any<uint32_t>("item"), was = d[at]; d[at] = x; ce::intro_sort(d, d + n);
    unsigned bad = 0, c = 0, e = 0; uint32_t q = vs_any<uint32_t>("probe"); for (unsigned i = 0; i < n; ++i) { c += d[i] == q; e += (i == at ? x : val(i)) == q; if (i) bad |= (unsigned)(d[i] < d[i - 1]); } vs_check(!bad, "in non-decreasing order"); vs_check(c == e, "exactly the items it held before"); (void)was; vs_cover("completes");
}

//---- S02
template<class K, unsigned LO, unsigned HI> static void s_bounds()
{
    unsigned n = pick(LO, HI, "length"); auto* d = static_cast<K*>(__builtin_malloc(sizeof(K) * (n + !n))); for (unsigned i = 0; i < n; ++i) { d[i] = vs_any<K>("item"); if (i) vs_assume(d[i - 1] <= d[i]); }
    K k = vs_any<K>("key"); auto* l = ce::lower_bound<K>(d, d + n, k); auto* u = ce::upper_bound<K>(d, d + n, k); size_t li = (size_t)(l - d), ui = (size_t)(u - d); vs_observe(li); vs_observe(ui); size_t le = 0, ue = 0; for (unsigned i = 0; i < n; ++i) { le += d[i] < k; ue += d[i] <= k; }
    vs_check(li == le, "lower_bound finds the first item that is not less"); vs_check(ui == ue, "upper_bound finds the first item that is greater"); vs_cover("completes");
}
VS_ENTRY(s_bounds_u32) { s_bounds<uint32_t, 0, 7>(); }
VS_ENTRY(s_bounds_i64) { s_bounds<int64_t, 0, 5>(); }
VS_ENTRY(s_bounds_u8) { s_bounds<uint8_t, 8, 11>(); }
VS_ENTRY(s_bounds_17) { s_bounds<uint32_t, 10, 17>(); }
VS_ENTRY(s_bounds_40) { s_bounds<uint8_t, 31, 40>(); }
VS_ENTRY(s_bounds_z)
{
    unsigned n = pick(0, 6, "length"); auto* d = static_cast<uint64_t*>(__builtin_malloc(8 * (n + !n))); for (unsigned i = 0; i < n; ++i) { d[i] = vs_any<uint64_t>("item"); if (i) vs_assume(d[i - 1] <= d[i]); } uint64_t k = vs_any<uint64_t>("key"); auto* l = ce::z_lower_bound(d, d + n, k); size_t le = 0; for (unsigned i = 0; i < n; ++i) le += d[i] < k; vs_check((size_t)(l - d) == le, "lower_bound finds the first item that is not less"); vs_cover("completes");
}
VS_ENTRY(s_bounds_less)
{   // only less-than on the items is used
    using T = keyed<uint16_t>; unsigned n = pick(0, 5, "length"); T d[5]; for (unsigned i = 0; i < n; ++i) { d[i] = any<T>(); if (i) vs_assume(!(d[i] < d[i - 1])); } T k = any<T>(); T const* l = ce::lower_bound<T>(d, d + n, k); T const* u = ce::upper_bound<T>(d, d + n, k); size_t le = 0, ue = 0; for (unsigned i = 0; i < n; ++i) { le += d[i] < k; ue += !(k < d[i]); } vs_check((size_t)(l - d) == le && (size_t)(u - d) == ue, "bounds use less-than only"); vs_cover("completes");
}

//---- Z01
static const uint64_t EVEN = 0x5555555555555555ull;
VS_ENTRY(z_code)
{
    int32_t x = vs_any<int32_t>("x"), y = vs_any<int32_t>("y"); uint64_t z = ce::z_encode(x, y); vs_observe(z); uint64_t e = 0; uint32_t ux = (uint32_t)x ^ 0x80000000u, uy = (uint32_t)y ^ 0x80000000u; for (unsigned i = 0; i < 32; ++i) e |= (uint64_t)(ux >> i & 1) << (2 * i) | (uint64_t)(uy >> i & 1) << (2 * i + 1);
    vs_check(z == e, "the code interleaves the bits of the offset coordinates"); uint32_t n = vs_any<uint32_t>("n"); uint64_t g = ce::z_expand(n), h = 0; for (unsigned i = 0; i < 32; ++i) h |= (uint64_t)(n >> i & 1) << (2 * i); vs_check(g == h, "expand spreads the bits"); vs_cover("completes");
}
VS_ENTRY(z_order)
{
    int32_t x = vs_any<int32_t>("x"), y = vs_any<int32_t>("y"), u = vs_any<int32_t>("u"), v = vs_any<int32_t>("v"); uint64_t a = ce::z_encode(x, y), b = ce::z_encode(u, v); vs_check((a == b) == ((x == u) & (y == v)), "distinct points have distinct codes"); vs_check(((x < u) & (y < v)) <= (a < b), "codes are ordered where both coordinates are"); vs_check(((a & EVEN) < (b & EVEN)) == (x < u) && ((a & ~EVEN) < (b & ~EVEN)) == (y < v), "each coordinate's bits order like the coordinate"); vs_cover("completes");
}
VS_ENTRY(z_inside)
{
    int32_t c[6]; for (auto& i : c) i = vs_any<int32_t>("c"); uint64_t lo = ce::z_encode(c[0], c[1]), hi = ce::z_encode(c[2], c[3]), z = ce::z_encode(c[4], c[5]); bool in = ce::z_inside(lo, hi, z); vs_observe(in); vs_check(in == ((c[0] <= c[4]) & (c[4] <= c[2]) & (c[1] <= c[5]) & (c[5] <= c[3])), "inside exactly when both coordinates lie within the inclusive bounds"); vs_cover("completes");
}
static bool leq(uint64_t a, uint64_t b) { return (unsigned)((a & EVEN) <= (b & EVEN)) & (unsigned)((a & ~EVEN) <= (b & ~EVEN)); }
static bool in(uint64_t lo, uint64_t hi, uint64_t z) { return (unsigned)leq(lo, z) & (unsigned)leq(z, hi); }
VS_ENTRY(z_split)
{   // codes rather than coordinates: every 64-bit value is a code
    uint64_t lo = vs_any<uint64_t>("lo"), hi = vs_any<uint64_t>("hi"), z = vs_any<uint64_t>("z"); vs_assume(leq(lo, hi)); uint64_t jo, ji; bool more = ce::z_split(lo, hi, jo, ji); vs_observe(jo); vs_observe(ji); uint64_t je = jo | 0xffff;
    bool l = in(lo, je, z), r = in(ji, hi, z), o = in(lo, hi, z); vs_check(!o | l | r, "the two boxes together cover every point of the box"); vs_check(!more | !(l & (z > je)) & !(r & (z < ji)), "each part lies within its codes");
    vs_check(!more | ((jo < ji) & (lo <= je) & (ji <= hi)), "the parts of a split box are ordered"); vs_check(!more | (leq(lo, je) & leq(ji, hi)), "the parts of a split box are boxes"); vs_check(((jo | ji) & 0xffff) == 0, "split codes start a cell"); vs_check(more == ((ji >> 16) > (jo >> 16) + 1), "a box is split when a gap of at least one cell lies between the parts");
    // whatever lies in the gap lies outside the box
    vs_check(!(more & o & (z > je) & (z < ji)), "no point of the box lies in the gap"); vs_check(!more | (z <= je) | (z >= ji) | !o, "no point of the box lies in the gap"); vs_cover("completes");
}
VS_ENTRY(z_gap)
{   // jump-out is the largest code of the box (up to its cell) in the lower half, jump-in the smallest in the upper half
    uint64_t lo = vs_any<uint64_t>("lo"), hi = vs_any<uint64_t>("hi"), jo, ji; vs_assume(leq(lo, hi)); vs_assume((lo ^ hi) >> 16); ce::z_split(lo, hi, jo, ji); uint64_t top = lo ^ hi; for (unsigned s = 1; s < 64; s *= 2) top |= top >> s; top ^= top >> 1;
    uint64_t z = vs_any<uint64_t>("z"); vs_assume(in(lo, hi, z)); vs_check((z & top) ? z >= ji : z <= (jo | 0xffff), "every point of a half lies on its side of the gap"); vs_check(in(lo, hi | 0xffff, jo | 0xffff) && in(lo & ~0xffffull, hi, ji), "the split corners lie in the box's cells"); vs_cover("completes");
}

//---- Z02. Boxes whose corners differ in a limited number of levels, any array of codes
template<unsigned N, unsigned LEVELS> static void z_query(unsigned lo_n)
{
    unsigned n = pick(lo_n, N, "size"); uint64_t base = vs_any<uint64_t>("base") & ~((1ull << (16 + LEVELS)) - 1), lo = base | vs_range(0, (1ull << (16 + LEVELS)) - 1, "lo"), hi = base | vs_range(0, (1ull << (16 + LEVELS)) - 1, "hi"); vs_assume(leq(lo, hi));
    auto* d = static_cast<uint64_t*>(__builtin_malloc(8 * (n + !n))); auto* out = static_cast<uint64_t*>(__builtin_malloc(8 * (n + !n))); for (unsigned i = 0; i < n; ++i) { d[i] = vs_any<uint64_t>("code"); if (i) vs_assume(d[i - 1] <= d[i]); }
    size_t c = vs_concretize(ce::z_query(out, lo, hi, n, d)); vs_observe(c); vs_check(c <= n, "no more results than elements");
    // results: a subsequence of the array that has every element inside the box
    uint64_t k = 0; for (unsigned i = 0; i < n; ++i) { bool inb = in(lo, hi, d[i]); bool is = false; for (unsigned j = 0; j < c; ++j) is |= (k == j) & (out[j] == d[i]); vs_check(!inb | is, "every element inside the box is returned, in order"); k += is; } vs_check(k == c, "every result is an element of the array, each at most once and in order"); for (unsigned j = 0; j < c; ++j) vs_observe(out[j]); vs_cover("completes");
}
VS_ENTRY(zq_1_4) { z_query<1, 4>(0); }
VS_ENTRY(zq_2_3) { z_query<2, 3>(2); }
VS_ENTRY(zq_3_1) { z_query<3, 1>(3); }
VS_ENTRY(zq_3_2) { z_query<3, 2>(3); }
VS_ENTRY(zq_1_8) { z_query<1, 8>(1); }
VS_ENTRY(zq_2_5) { z_query<2, 5>(2); }
VS_ENTRY(zq_3_4) { z_query<3, 4>(3); }
template<unsigned BITS, unsigned AT, bool HIGH> static void z_corner()
{   // boxes from near the first code to near the last one, an array of a corner alone: the longest chains of splits
    uint64_t lo = vs_range(0, (1 << BITS) - 1, "lo") << AT, hi = ~(vs_range(0, (1 << BITS) - 1, "hi") << AT); auto* d = static_cast<uint64_t*>(__builtin_malloc(8)); auto* out = static_cast<uint64_t*>(__builtin_malloc(8)); *d = HIGH ? hi : lo;
    size_t c = ce::z_query(out, lo, hi, 1, d); vs_check(c == 1 && *out == *d, "every element inside the box is returned, in order"); vs_observe(*out); vs_cover("completes");
}
VS_ENTRY(zq_corner_low) { z_corner<3, 15, false>(); }
VS_ENTRY(zq_corner_high) { z_corner<3, 15, true>(); }
VS_ENTRY(zq_corner_low_6) { z_corner<6, 14, false>(); }
VS_ENTRY(zq_corner_high_6) { z_corner<6, 14, true>(); }
