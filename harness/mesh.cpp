// D01-D05: the constrained Delaunay triangulation.
#include "vs.h"
#include "ce/cdt.h"
using u8 = unsigned char;
using ce::vec2;

// edge e of a face runs from a(e) to b(e) as seen from outside the opposite vertex
static unsigned next(unsigned e) { return e % 4 < 2 ? e + 1 : e - 2; }
static unsigned prev(unsigned e) { return e % 4 > 0 ? e - 1 : e + 2; }

template<size_t N> struct mesh_t
{
    ce::cdt<0, N> m;
    unsigned top() const { return (unsigned)m.size * 8; }
    int64_t x(unsigned v) const { return m.vs[v].x; }
    int64_t y(unsigned v) const { return m.vs[v].y; }
    int64_t cross(unsigned a, unsigned b, unsigned c) const { return (x(b) - x(a)) * (y(c) - y(a)) - (y(b) - y(a)) * (x(c) - x(a)); }
    bool outer(unsigned a, unsigned b) const { unsigned s = 1u << a | 1u << b; return a < 4 && b < 4 && (s == 3 || s == 5 || s == 10 || s == 12); }

    // a valid triangulation of the outer square: the faces are strictly oriented, glued along whole edges and bounded by the
    // square's four edges, and every vertex belongs to a face; with 2(V-3) faces this is a disk mapped without folds
    void valid(unsigned points) const
    {
        vs_check(m.size == points, "one vertex per inserted point");
        vs_check(m.vs[0].x == -32768 && m.vs[0].y == -32768 && m.vs[1].x == 32767 && m.vs[1].y == -32768 && m.vs[2].x == -32768 && m.vs[2].y == 32767 && m.vs[3].x == 32767 && m.vs[3].y == 32767, "the outer corners stay");
        unsigned used = 0, rim = 0;
        bool oriented = true;
        for (unsigned f = 24; f < top(); f += 4)
        {
            for (unsigned e = f; e < f + 3; ++e)
            {
                unsigned o = m.es[e].p, a = m.es[next(e)].p, b = m.es[prev(e)].p, t = m.es[e].e;
                vs_check(o < points && a < points && b < points && a != b, "faces join different vertices");
                used |= 1u << o;
                if (t == 0)
                {
                    ++rim;
                    vs_check(outer(a, b), "only the outer edges have no neighbour");
                    vs_check(m.es[e].c != 0, "the outer edges are constrained");
                    continue;
                }
                vs_check(t >= 24 && t < top() && t % 4 != 3, "the neighbour is an edge of a face");
                vs_check(m.es[t].e == e, "neighbours refer to each other");
                vs_check(m.es[next(t)].p == b && m.es[prev(t)].p == a, "neighbours share the edge's vertices");
                vs_check((m.es[t].c != 0) == (m.es[e].c != 0), "both sides agree on the constraint");
            }
            oriented &= cross(m.es[f].p, m.es[f + 1].p, m.es[f + 2].p) < 0;
        }
        vs_check(rim == 4, "the outer boundary is the square");
        vs_check(used == (1u << points) - 1, "every vertex belongs to a face");
        vs_check(oriented, "every face is strictly oriented");
    }
    void vertex(unsigned v, int px, int py) const { vs_check((m.vs[v].x == px) & (m.vs[v].y == py), "the vertex is the inserted point"); }

    // > 0: v strictly inside the circle through a, b and c (in mesh orientation)
    bool in_circle(unsigned a, unsigned b, unsigned c, unsigned v) const
    {
        int64_t ax = x(a) - x(v), ay = y(a) - y(v), bx = x(b) - x(v), by = y(b) - y(v), cx = x(c) - x(v), cy = y(c) - y(v);
        int64_t d = (ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx);
        return d < 0;
    }
    void delaunay() const
    {
        for (unsigned f = 24; f < top(); f += 4)
            for (unsigned e = f; e < f + 3; ++e)
            {
                unsigned t = m.es[e].e;
                if (m.es[e].c != 0 || t > e) continue;
                vs_check(!in_circle(m.es[f].p, m.es[f + 1].p, m.es[f + 2].p, m.es[t].p), "no vertex inside the circle across an unconstrained edge");
            }
    }
};


struct point_t { int x, y; };
// (sx * i, sy * j) steps from a corner, 0 <= i, j <= w; steps are even so that every point is one the mesh can hold
struct window { int x, y; unsigned w; int sx, sy; };
static point_t some(window const& w)
{
    return { w.x + w.sx * (int)vs_range(0, w.w, "x"), w.y + w.sy * (int)vs_range(0, w.w, "y") };
}
template<size_t Q, size_t N> static bool insert(ce::cdt<Q, N>& m, point_t p, unsigned hint) { return m.insert_point(vec2<int32_t>{ p.x << Q, p.y << Q }, hint); }
// every hint: any face, none, and one beyond the mesh
template<class M> static unsigned any_hint(M const& m)
{
    unsigned f = (unsigned)vs_concretize(vs_range(5, m.size * 2, "hint"));
    return f == 5 ? 0 : f * 4 + (unsigned)vs_concretize(vs_range(0, 3, "edge")) % 4;
}
template<unsigned N> struct snapshot
{
    size_t size; ce::cdt<0, N> m;
    snapshot(ce::cdt<0, N> const& from) : size(from.size), m(from) {}
    void same(ce::cdt<0, N> const& o) const
    {
        vs_check(o.size == size, "nothing is added");
        for (unsigned e = 0; e < size * 8; ++e) vs_check((o.es[e].c == m.es[e].c) & (o.es[e].p == m.es[e].p) & (o.es[e].e == m.es[e].e), "nothing changes");
    }
};

enum { VALID = 1, CIRCLE = 2, HINTS = 4 };
template<unsigned K, unsigned WHAT> static void insert_k(window const (&w)[K])
{
    static mesh_t<4 + K> m;
    m.m.reset();
    point_t p[K];
    unsigned n = 4;
    for (unsigned i = 0; i < K; ++i)
    {
        p[i] = some(w[i]);
        bool dup = false;
        for (unsigned k = 0; k < i; ++k) dup |= (p[k].x == p[i].x) & (p[k].y == p[i].y);
        bool last = i + 1 == K;
        unsigned hint = last && (WHAT & HINTS) != 0 ? any_hint(m.m) : 0;
        bool ok = insert(m.m, p[i], hint);
        vs_check(ok, "a point inside the region is inserted");
        if (dup) vs_check(m.m.size == n, "an existing point adds nothing");
        else { vs_check(m.m.size == n + 1, "a new point adds one vertex"); m.vertex(n, p[i].x, p[i].y); ++n; }
        if (last && (WHAT & CIRCLE) != 0) m.delaunay();
        if (last && (WHAT & VALID) != 0) m.valid(n);
    }
    vs_cover("completes");
}
#define BOTH(NAME, ...) VS_ENTRY(d_ins_##NAME) { static const window w[] = { __VA_ARGS__ }; insert_k<sizeof(w) / sizeof(w[0]), VALID>(w); } VS_ENTRY(d_del_##NAME) { static const window w[] = { __VA_ARGS__ }; insert_k<sizeof(w) / sizeof(w[0]), CIRCLE>(w); }
#define HINTED(NAME, ...) VS_ENTRY(d_ins_##NAME) { static const window w[] = { __VA_ARGS__ }; insert_k<sizeof(w) / sizeof(w[0]), VALID | HINTS>(w); }
HINTED(1, { -8, -8, 8, 2, 2 })
HINTED(1_low, { -32766, -32766, 7, 2, 2 })
HINTED(1_high, { 32752, 32752, 7, 2, 2 })
HINTED(1_all, { -32764, -32764, 15, 4368, 4368 })
HINTED(2, { 0, 0, 3, 2, 2 }, { 0, 0, 3, 2, 2 })
BOTH(2_wide, { -32760, -32760, 7, 9300, 9300 }, { -32760, -32760, 7, 9300, 9300 })
BOTH(2_far, { -20000, 11000, 7, 2, 2 }, { 16000, -20006, 7, 2, 2 })
BOTH(3, { 0, 0, 2, 2, 2 }, { 0, 0, 2, 2, 2 }, { 0, 0, 2, 2, 2 })
BOTH(3_wide, { -30000, -30000, 3, 20000, 20000 }, { -30000, -30000, 3, 20000, 20000 }, { -30000, -30000, 3, 20000, 20000 })
BOTH(3_mixed, { -30000, -20000, 3, 2, 16000 }, { -30, -30, 3, 20, 20 }, { 20000, -30000, 3, 4000, 16000 })
BOTH(4, { 0, 0, 1, 2, 2 }, { 2, 0, 1, 2, 4 }, { 0, 2, 1, 4, 2 }, { 0, 0, 3, 2, 2 })
BOTH(4_wide, { -28000, -28000, 1, 50000, 50000 }, { -20000, 10000, 1, 30000, 9000 }, { 8, -6, 1, 2, 6 }, { -3000, -3000, 3, 2000, 2000 })
BOTH(5, { -20, -20, 1, 40, 0 }, { -20, 20, 1, 40, 2 }, { -2, -30, 1, 4, 60 }, { 0, 0, 1, 2, 2 }, { -20, -20, 3, 14, 14 })
BOTH(3_more, { 0, 0, 3, 2, 2 }, { 0, 0, 3, 2, 2 }, { 0, 0, 3, 2, 2 })
BOTH(4_more, { 0, 0, 1, 2, 2 }, { 2, 0, 2, 2, 4 }, { 0, 2, 2, 4, 2 }, { 0, 0, 3, 2, 2 })
BOTH(6, { -20, -20, 1, 40, 0 }, { -20, 20, 1, 40, 2 }, { -2, -30, 1, 4, 60 }, { 0, 0, 1, 2, 2 }, { -20, -20, 1, 14, 14 }, { -20, -20, 3, 14, 14 })
BOTH(5_wide, { -28000, -28000, 1, 50000, 50000 }, { -20000, 10000, 1, 30000, 9000 }, { 8, -6, 1, 2, 6 }, { -3000, -3000, 1, 2000, 2000 }, { -30000, -30000, 3, 16000, 17000 })

// points outside the region, on its outer edge, and beyond the capacity are refused and leave the mesh alone
template<unsigned K> static void refuse(window const (&w)[K], window const& last, bool expect)
{
    static mesh_t<4 + K> m;
    m.m.reset();
    for (unsigned i = 0; i < K; ++i) insert(m.m, some(w[i]), 0);
    snapshot<4 + K> s(m.m);
    point_t p = some(last);
    bool exists = false;
    for (unsigned v = 0; v < m.m.size; ++v) exists |= (m.x(v) == p.x) & (m.y(v) == p.y);
    bool ok = insert(m.m, p, any_hint(m.m));
    vs_check(ok == (expect | exists), "exactly the points already present are accepted");
    s.same(m.m);
    vs_cover("completes");
}
static const window one_in[] = { { 0, 0, 3, 2, 2 } }, two_in[] = { { -4, 0, 1, 2, 2 }, { 0, 0, 1, 2, 2 } };
VS_ENTRY(d_ref_left) { refuse(one_in, window{ -32768, -32768, 15, 0, 4370 }, false); }
VS_ENTRY(d_ref_bottom) { refuse(one_in, window{ -32768, -32768, 15, 4370, 0 }, false); }
VS_ENTRY(d_ref_out_right) { refuse(one_in, window{ 32768, -40000, 7, 2, 10000 }, false); }
VS_ENTRY(d_ref_out_top) { refuse(one_in, window{ -40000, 32768, 7, 10000, 2 }, false); }
VS_ENTRY(d_ref_out_left) { refuse(one_in, window{ -32784, -40000, 7, 2, 10000 }, false); }
VS_ENTRY(d_ref_out_far) { refuse(one_in, window{ -2147483647 - 1, -2147483647 - 1, 1, 2147483646, 2147483646 }, false); }
VS_ENTRY(d_ref_full) { refuse(two_in, window{ -4, 0, 3, 2, 2 }, false); }
// odd coordinates are rounded down to even ones, and finer user coordinates to the mesh's
template<size_t Q> static void rounded()
{
    static ce::cdt<Q, 6> m;
    m.reset();
    int px = (int)vs_srange(-40, 40, "x"), py = (int)vs_srange(-40, 40, "y");
    vs_check(m.insert_point(vec2<int32_t>{ px, py }, 0), "inserted");
    vs_check((m.vs[4].x == (((px + 4096) / (2 << Q)) * 2 - (4096 >> Q))) & (m.vs[4].y == (((py + 4096) / (2 << Q)) * 2 - (4096 >> Q))), "the vertex is the point rounded down");
    vs_cover("completes");
}
VS_ENTRY(d_round_0) { rounded<0>(); }
VS_ENTRY(d_round_3) { rounded<3>(); }

// the circle test against 128-bit arithmetic, vertices anywhere including the outer corners
static int16_t corner(const char* n) { bool hi = vs_any<bool>("side"); int o = (int)vs_range(0, 1, n); return (int16_t)(hi ? 32767 - o : -32768 + o); }
template<class F> static void circle(F&& coord)
{
    static ce::cdt<0, 8> m;
    m.reset();
    m.size = 8;
    for (unsigned v = 4; v < 8; ++v) { m.vs[v].x = coord(); m.vs[v].y = coord(); }
    m.fs[6].p0 = 4; m.fs[6].p1 = 5; m.fs[6].p2 = 6;
    __int128 ax = m.vs[4].x - m.vs[7].x, ay = m.vs[4].y - m.vs[7].y, bx = m.vs[5].x - m.vs[7].x, by = m.vs[5].y - m.vs[7].y, cx = m.vs[6].x - m.vs[7].x, cy = m.vs[6].y - m.vs[7].y;
    __int128 d = (ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx);
    vs_check(m.incircle(6, 7) == (d < 0), "the circle test is exact");
    vs_cover("completes");
}
VS_ENTRY(d_circle_small) { circle([] { return (int16_t)vs_srange(-4, 3, "c"); }); }
VS_ENTRY(d_circle_mid) { circle([] { return (int16_t)(vs_srange(-8, 7, "c") * 1024); }); }
VS_ENTRY(d_circle_corner) { circle([] { return corner("o"); }); }
VS_ENTRY(d_circle_any) { circle([] { return (int16_t)vs_srange(-8192, 8191, "c"); }); }

// lookup
static bool inside_(int64_t ax, int64_t ay, int64_t bx, int64_t by)
{
    int64_t l = ax * by, r = ay * bx;
    return (l < r) | ((l == r) & ((by < ay) | ((by == ay) & (ax < bx))));
}
template<size_t Q, size_t N> static bool holds(ce::cdt<Q, N> const& m, unsigned f, int64_t x, int64_t y)
{
    int64_t s = 1 << Q;
    auto &a = m.vs[m.fs[f].p0], &b = m.vs[m.fs[f].p1], &c = m.vs[m.fs[f].p2];
    int64_t ax = a.x * s - x, ay = a.y * s - y, bx = b.x * s - x, by = b.y * s - y, cx = c.x * s - x, cy = c.y * s - y;
    return inside_(ax, ay, bx, by) & inside_(bx, by, cx, cy) & inside_(cx, cy, ax, ay);
}
template<size_t Q, unsigned K, bool HINT> static void locate_k(window const (&w)[K], window const& q)
{
    static ce::cdt<Q, 4 + K> m;
    m.reset();
    for (unsigned i = 0; i < K; ++i) if (w[i].w || i) insert(m, some(w[i]), 0);
    point_t p = some(q);
    unsigned r = m.locate(vec2<int32_t>{ p.x, p.y }, HINT ? any_hint(m) : 0);
    unsigned n = 0; bool in = false;
    for (unsigned f = 6; f < m.size * 2; ++f)
    {
        bool h = holds(m, f, p.x, p.y);
        n += h;
        in |= h & (r == f * 4 + 3);
    }
    int64_t lo = -32768 * ((int64_t)1 << Q), hi = 32767 * ((int64_t)1 << Q);
    vs_check(n <= 1, "no point is in two triangles");
    vs_check((n == 1) == (r != 0), "found exactly if a triangle holds the point");
    vs_check((r == 0) | in, "the triangle found holds the point");
    if ((p.x > lo) & (p.x < hi) & (p.y > lo) & (p.y < hi)) vs_check(r != 0, "points inside the region are found");
    if ((p.x < lo) | (p.x > hi) | (p.y < lo) | (p.y > hi)) vs_check(r == 0, "points outside the region are not");
    vs_cover("completes");
}
static const window none[] = { { 0, 0, 0, 0, 0 } };
static const window loc_1[] = { { 0, 0, 3, 2, 2 } }, loc_2[] = { { 0, 0, 1, 4, 2 }, { 2, 0, 1, 2, 4 } }, loc_3[] = { { 0, 0, 1, 4, 2 }, { 2, 0, 1, 2, 4 }, { 0, 6, 1, 2, 0 } }, loc_wide[] = { { -30000, -20000, 1, 50000, 40000 }, { -100, -100, 1, 300, 400 } };
static const window loc_4[] = { { -20, -20, 1, 40, 0 }, { -20, 20, 1, 40, 2 }, { -2, -30, 1, 4, 60 }, { 0, 0, 1, 2, 2 } };
VS_ENTRY(d_loc_0) { locate_k<0, 1, true>(none, window{ -8, -8, 15, 1, 1 }); }
VS_ENTRY(d_loc_0_corner) { locate_k<0, 1, true>(none, window{ -32769, -32769, 15, 4370, 4370 }); }
VS_ENTRY(d_loc_0_edge) { locate_k<0, 1, true>(none, window{ 32764, 32760, 7, 1, 1 }); }
VS_ENTRY(d_loc_0_any) { locate_k<0, 1, true>(none, window{ -2147483647 - 1, -2147483647 - 1, 255, 16843009, 16843009 }); }
VS_ENTRY(d_loc_0_q) { locate_k<10, 1, true>(none, window{ -2147483647 - 1, -2147483647 - 1, 255, 16843009, 16843009 }); }
VS_ENTRY(d_loc_1) { locate_k<0, 1, true>(loc_1, window{ -1, -1, 7, 1, 1 }); }
VS_ENTRY(d_loc_1_far) { locate_k<0, 1, true>(loc_1, window{ -2147483647 - 1, -2147483647 - 1, 15, 286331153, 286331153 }); }
VS_ENTRY(d_loc_1_q) { locate_k<3, 1, true>(loc_1, window{ -4, -4, 7, 5, 5 }); }
VS_ENTRY(d_loc_2) { locate_k<0, 2, true>(loc_2, window{ -1, -1, 7, 1, 1 }); }
VS_ENTRY(d_loc_2_wide) { locate_k<0, 2, true>(loc_wide, window{ -32769, -32769, 7, 9363, 9363 }); }
VS_ENTRY(d_loc_3) { locate_k<0, 3, true>(loc_3, window{ -1, -1, 7, 1, 1 }); }
VS_ENTRY(d_loc_4) { locate_k<0, 4, true>(loc_4, window{ -24, -24, 7, 7, 7 }); }
VS_ENTRY(d_loc_4_near) { locate_k<0, 4, true>(loc_4, window{ -2, -2, 7, 1, 1 }); }

// constrained edges: from vertex s, which vertices does a chain of constrained edges reach that stays on the segment from
// (px, py) to (qx, qy), up to slack units in each coordinate
template<size_t N> static bool chained(ce::cdt<0, N> const& m, int64_t px, int64_t py, int64_t qx, int64_t qy, int64_t slack)
{
    unsigned near = 0, at = 0, end = 0;
    for (unsigned v = 0; v < m.size; ++v)
    {
        int64_t dx = qx - px, dy = qy - py, x = m.vs[v].x - px, y = m.vs[v].y - py;
        int64_t t = slack * ((dx < 0 ? -dx : dx) + (dy < 0 ? -dy : dy)), c = dx * y - dy * x, d = dx * x + dy * y;
        bool on = (c <= t) & (c >= -t) & (d >= 0) & (d <= dx * dx + dy * dy);
        near |= on ? 1u << v : 0;
        at |= (x == 0) & (y == 0) ? 1u << v : 0;
        end |= (m.vs[v].x == qx) & (m.vs[v].y == qy) ? 1u << v : 0;
    }
    for (unsigned i = 1; i < m.size; ++i)
        for (unsigned e = 24; e < m.size * 8; e = e % 4 == 2 ? e + 2 : e + 1)
        {
            if (m.es[e].c == 0) continue;
            unsigned a = 1u << m.es[next(e)].p, b = 1u << m.es[prev(e)].p;
            bool both = ((near & a) != 0) & ((near & b) != 0);
            at |= both & ((at & a) != 0) ? b : 0;
            at |= both & ((at & b) != 0) ? a : 0;
        }
    return (at & end) != 0;
}
struct edge_t { point_t p, q; };
template<size_t N> static bool exists(mesh_t<N> const& m, point_t p)
{
    bool r = false;
    for (unsigned v = 0; v < m.m.size; ++v) r |= (m.x(v) == p.x) & (m.y(v) == p.y);
    return r;
}
// K points, then L edges one after another; the mesh must be valid and every edge inserted must still be there at the end
template<unsigned K, unsigned L, unsigned C> static void edges_k(window const (&w)[K], window const (&e)[2 * L], bool certain, unsigned least)
{
    static mesh_t<C> m;
    m.m.reset();
    for (unsigned i = 0; i < K; ++i) if (w[i].sx | w[i].sy) insert(m.m, some(w[i]), 0);
    edge_t es[L]; bool ok[L]; unsigned bends[L];
    for (unsigned i = 0; i < L; ++i)
    {
        point_t p = some(e[2 * i]), q = some(e[2 * i + 1]);
        vs_assume((p.x != q.x) | (p.y != q.y));
        es[i] = { p, q };
        unsigned before = (unsigned)m.m.size;
        if (!exists(m, p)) ++before;
        if (!exists(m, q)) ++before;
        ok[i] = m.m.insert_edge(vec2<int32_t>{ p.x, p.y }, vec2<int32_t>{ q.x, q.y }, i == 0 ? 0 : 24);
        bends[i] = (unsigned)m.m.size - before; // crossing points, each off by less than a unit
        if (certain) vs_check(ok[i], "the edge is inserted");
    }
    m.valid((unsigned)m.m.size);
    for (unsigned i = 0; i < L; ++i)
        if (ok[i]) vs_check(chained(m.m, es[i].p.x, es[i].p.y, es[i].q.x, es[i].q.y, bends[i] + least), "the edge is a chain of constrained edges");
    vs_cover("completes");
}
// LEAST: crossing points that may fall on vertices already there
#define EDGES(NAME, L, C, CERTAIN, LEAST, POINTS, ...) VS_ENTRY(d_edge_##NAME) { static const window w[] = { POINTS }, e[] = { __VA_ARGS__ }; edges_k<sizeof(w) / sizeof(w[0]), L, C>(w, e, CERTAIN, LEAST); }
#define P(...) { __VA_ARGS__ }
#define PP(...) __VA_ARGS__
EDGES(empty, 1, 10, true, 0, P(0, 0, 0, 0, 0), P(0, 0, 3, 2, 2), P(0, 0, 3, 2, 2))
EDGES(corner, 1, 10, false, 0, P(0, 0, 0, 0, 0), P(-32768, -32768, 3, 2, 2), P(-32768, -32768, 3, 2, 2))
EDGES(long, 1, 10, true, 0, P(0, 0, 0, 0, 0), P(-30000, -30000, 3, 3000, 20000), P(0, -30000, 3, 10000, 20000))
EDGES(point, 1, 10, true, 0, PP(P(16, 16, 3, 16, 16)), P(0, 0, 3, 16, 16), P(32, 32, 3, 16, 16))
EDGES(point_fine, 1, 10, false, 2, PP(P(2, 2, 3, 2, 2)), P(0, 0, 3, 2, 2), P(4, 4, 3, 2, 2))
EDGES(points, 1, 14, true, 0, PP(P(16, 16, 1, 16, 16), P(48, 0, 1, 16, 32), P(64, 48, 1, 16, 16)), P(0, 0, 1, 16, 48), P(96, 32, 1, 16, 16))
EDGES(points_long, 1, 14, false, 0, PP(P(1000, 900, 1, 16, 160), P(-4800, 0, 1, 16, 3200), P(6400, -480, 1, 16, 16)), P(-20000, 0, 1, 160, 480), P(20000, 32, 1, 16, 1600))
EDGES(same, 2, 10, false, 0, P(0, 0, 0, 0, 0), P(0, 0, 1, 16, 16), P(64, 0, 1, 16, 32), P(0, 0, 1, 16, 16), P(64, 0, 1, 16, 32))
EDGES(cross, 2, 14, false, 0, P(0, 0, 0, 0, 0), P(0, 0, 1, 16, 16), P(128, 128, 1, 16, 32), P(0, 128, 1, 16, 16), P(128, 0, 1, 16, 32))
EDGES(cross_fine, 2, 14, false, 2, P(0, 0, 0, 0, 0), P(0, 0, 1, 2, 2), P(6, 4, 1, 2, 2), P(0, 4, 1, 2, 2), P(4, 0, 1, 4, 2))
EDGES(touch, 2, 14, false, 0, P(0, 0, 0, 0, 0), P(0, 0, 1, 16, 16), P(64, 64, 0, 2, 2), P(16, 0, 3, 16, 0), P(16, 64, 1, 16, 16))
EDGES(three, 3, 20, false, 2, P(0, 0, 0, 0, 0), P(0, 0, 0, 2, 2), P(60, 0, 1, 4, 20), P(30, 60, 1, 4, 4), P(30, -60, 1, 4, 4), P(0, 30, 1, 2, 6), P(60, -30, 0, 4, 4))

EDGES(points_more, 1, 14, true, 0, PP(P(16, 16, 1, 16, 16), P(48, 0, 1, 16, 32), P(64, 48, 1, 16, 16)), P(0, 0, 1, 16, 48), P(96, 32, 3, 16, 16))
EDGES(cross_more, 2, 14, false, 0, P(0, 0, 0, 0, 0), P(0, 0, 3, 16, 16), P(128, 128, 1, 16, 32), P(0, 128, 3, 16, 16), P(128, 0, 1, 16, 32))
EDGES(fine_more, 2, 14, false, 2, P(0, 0, 0, 0, 0), P(0, 0, 3, 2, 2), P(6, 4, 1, 2, 2), P(0, 4, 3, 2, 2), P(4, 0, 1, 4, 2))
EDGES(four, 4, 28, false, 3, P(0, 0, 0, 0, 0), P(0, 0, 0, 2, 2), P(60, 0, 1, 4, 20), P(30, 60, 1, 4, 4), P(30, -60, 1, 4, 4), P(0, 30, 1, 2, 6), P(60, -30, 0, 4, 4), P(-30, 12, 0, 4, 4), P(90, 6, 1, 4, 4))

// filling: any constraints and labels on the mesh of a few fixed points
static const window fill_pts[] = { { 0, 0, 0, 2, 2 }, { 9000, 300, 0, 2, 2 }, { -100, 8000, 0, 2, 2 }, { 3000, -9000, 0, 2, 2 } };
template<size_t N> static void flooded(ce::cdt<0, N>& m, unsigned top, unsigned start, unsigned part, uint16_t label)
{
    uint16_t old[64];
    for (unsigned f = 6; f < top; ++f) old[f] = m.fs[f].fi;
    uint64_t open = 0, in = 0;
    for (unsigned f = 6; f < top; ++f) open |= (uint64_t)(old[f] != label) << f;
    in = ((uint64_t)1 << start) & open;
    for (unsigned i = 6; i < top; ++i)
        for (unsigned e = 24; e < top * 4; ++e)
        {
            if (e % 4 == 3 || m.es[e].e == 0) continue;
            unsigned f = e / 4, g = m.es[e].e / 4;
            in |= ((in >> f) & (uint64_t)(m.es[e].c == 0) & (open >> g) & 1) << g;
        }
    m.fill(start * 4 + part, label);
    for (unsigned f = 6; f < top; ++f) vs_check(m.fs[f].fi == ((in >> f & 1) != 0 ? label : old[f]), "exactly the region is labelled");
    vs_cover("completes");
}
template<unsigned K> static void fill_k()
{
    static ce::cdt<0, 4 + K> m;
    m.reset();
    for (unsigned i = 0; i < K; ++i) insert(m, some(fill_pts[i]), 0);
    unsigned top = (unsigned)m.size * 2;
    for (unsigned e = 24; e < top * 4; ++e)
        if (e % 4 != 3 && m.es[e].e > e) { bool c = vs_any<bool>("constrained"); m.es[e].c = c; m.es[m.es[e].e].c = c; }
    for (unsigned f = 6; f < top; ++f) m.fs[f].fi = vs_any<uint16_t>("label");
    unsigned start = (unsigned)vs_concretize(vs_range(6, top - 1, "start"));
    flooded(m, top, start, K < 2 ? (unsigned)vs_concretize(vs_range(0, 3, "part")) : 3, vs_any<uint16_t>("info"));
}
VS_ENTRY(d_fill_0) { fill_k<0>(); }
VS_ENTRY(d_fill_1) { fill_k<1>(); }
VS_ENTRY(d_fill_2) { fill_k<2>(); }
VS_ENTRY(d_fill_3) { fill_k<3>(); }
// outside the mesh there is nothing to fill
VS_ENTRY(d_fill_none)
{
    static ce::cdt<0, 5> m;
    m.reset();
    insert(m, some(fill_pts[0]), 0);
    for (unsigned f = 6; f < 10; ++f) m.fs[f].fi = vs_any<uint16_t>("label");
    snapshot<5> s(m);
    m.fill((unsigned)vs_range(0, 3, "n"), vs_any<uint16_t>("info"));
    s.same(m);
    for (unsigned f = 0; f < 10; ++f) vs_check(m.fs[f].fi == s.m.fs[f].fi, "no label changes");
    vs_cover("completes");
}
// a long strip of faces with a side face on each, so that many faces wait at once; only the links matter here
VS_ENTRY(d_fill_long)
{
    constexpr unsigned n = 300;
    static ce::cdt<0, n + 8> m;
    m.reset();
    m.size = n + 3;
    unsigned way = (unsigned)vs_concretize(vs_range(0, 2, "way"));
    unsigned cut = (unsigned)vs_concretize(vs_range(0, 5, "cut"));
    unsigned at = cut == 0 ? n : cut == 1 ? 1 : cut == 2 ? 200 : 252 + cut;
    uint16_t a = vs_any<uint16_t>("a"), label = vs_any<uint16_t>("info");
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned f = (6 + 2 * i) * 4, g = f + 4, prev = way, leaf = (way + 1) % 3, next_ = (way + 2) % 3;
        for (unsigned e = 0; e < 3; ++e) { m.es[f + e].c = m.es[g + e].c = 1; m.es[f + e].e = m.es[g + e].e = 0; m.es[f + e].p = m.es[g + e].p = 0; }
        m.es[f + leaf].c = 0; m.es[f + leaf].e = (uint16_t)(g + prev); m.es[g + prev].c = 0; m.es[g + prev].e = (uint16_t)(f + leaf);
        if (i != 0) { m.es[f + prev].c = i == at; m.es[f + prev].e = (uint16_t)(f - 8 + next_); m.es[f - 8 + next_].c = i == at; m.es[f - 8 + next_].e = (uint16_t)(f + prev); }
        m.fs[f / 4].fi = m.fs[g / 4].fi = a;
    }
    m.fill(24 + 3, label);
    for (unsigned i = 0; i < n; ++i)
    {
        uint16_t want = i < at ? label : a;
        vs_check((m.fs[6 + 2 * i].fi == want) & (m.fs[7 + 2 * i].fi == want), "exactly the region is labelled");
    }
    vs_cover("completes");
}

// reading the mesh: any stored vertices, links, constraints and labels; users see coordinates scaled by 2^Q
template<size_t Q> static vec2<int32_t> user(ce::cdt<Q, 8> const& m, unsigned v) { return { m.vs[v].x * (1 << Q), m.vs[v].y * (1 << Q) }; }
static bool same_(vec2<int32_t> const& a, vec2<int32_t> const& b) { return (a.x == b.x) & (a.y == b.y); }
template<size_t Q> static void any_mesh(ce::cdt<Q, 8>& m, unsigned size)
{
    m.reset();
    m.size = size;
    for (unsigned v = 0; v < size; ++v) { m.vs[v].x = vs_any<int16_t>("x"); m.vs[v].y = vs_any<int16_t>("y"); }
    for (unsigned e = 24; e < size * 8; ++e)
    {
        m.es[e].p = (unsigned)vs_range(0, size - 1, "vertex") & 8191;
        m.es[e].c = vs_any<u8>("constraint") & 7;
        if (e % 4 != 3) m.es[e].e = vs_any<uint16_t>("twin");
    }
    for (unsigned f = 6; f < size * 2; ++f) m.fs[f].fi = vs_any<uint16_t>("label");
}
template<size_t Q> static void edge_is(ce::cdt<Q, 8> const& m, typename ce::cdt<Q, 8>::edge const& d, unsigned e)
{
    vs_check(same_(d.u, user(m, m.es[next(e)].p)) & same_(d.v, user(m, m.es[prev(e)].p)), "an edge shows its two ends");
    vs_check((d.constrained == (m.es[e].c != 0)) & (d.primary == (m.es[e].e < e)), "an edge shows its constraint and whether it stands for both sides");
}
template<size_t Q> static void views(unsigned size)
{
    using M = ce::cdt<Q, 8>;
    static M m;
    any_mesh(m, size);
    unsigned f = 6, e = 24;
    for (auto d : m.faces())
    {
        vs_check(f < size * 2, "no triangle beyond the last");
        auto one = m[typename M::face_id_t(f * 4)];
        unsigned p[3] = { m.fs[f].p0, m.fs[f].p1, m.fs[f].p2 }, t[3] = { m.fs[f].e0, m.fs[f].e1, m.fs[f].e2 };
        bool c[3] = { m.fs[f].c0 != 0, m.fs[f].c1 != 0, m.fs[f].c2 != 0 };
        for (unsigned i = 0; i < 3; ++i)
        {
            vs_check(same_(d.ps[i], user(m, p[i])) & ((unsigned)d.es[i] == t[i]) & (d.cs[i] == c[i]), "a triangle shows its corners, neighbours and constraints");
            vs_check(same_(d.ps[i], one.ps[i]) & (d.es[i] == one.es[i]) & (d.cs[i] == one.cs[i]), "by name as by visiting");
        }
        vs_check((d.data == m.fs[f].fi) & (one.data == d.data), "a triangle shows its label");
        ++f;
    }
    vs_check(f == (size < 4 ? 6 : size * 2), "every triangle is visited");
    for (auto d : m.edges())
    {
        vs_check((e < size * 8) & ce::is_edge(e) & !ce::is_face(e) & ce::is_face(e | 3), "no edge beyond the last");
        edge_is<Q>(m, d, e);
        edge_is<Q>(m, m[typename M::edge_id_t(e)], e);
        vs_check(same_(m.edge_vert_a(e), d.u) & same_(m.edge_vert_b(e), d.v) & same_(m.edge_vert_o(e), user(m, m.es[e].p)), "the ends and the opposite vertex by name");
        e = e % 4 == 2 ? e + 2 : e + 1;
    }
    vs_check(e == (size < 4 ? 24 : size * 8), "every edge is visited");
    vs_cover("completes");
}
VS_ENTRY(d_view_0) { views<0>(4); }
VS_ENTRY(d_view_q) { views<10>(6); }
VS_ENTRY(d_view_few) { views<3>((unsigned)vs_concretize(vs_range(0, 5, "size"))); }
// on a mesh reached by inserting points every line between two vertices is shown exactly once as primary
VS_ENTRY(d_view_real)
{
    static ce::cdt<2, 8> m;
    m.reset();
    for (auto& w : loc_2) insert(m, some(w), 0);
    unsigned n = 0, faces = 0;
    for (auto d : m.edges())
    {
        n += d.primary;
        unsigned same = 0;
        for (auto o : m.edges()) same += o.primary & ((same_(o.u, d.u) & same_(o.v, d.v)) | (same_(o.u, d.v) & same_(o.v, d.u)));
        vs_check(same == 1, "every line between two vertices is primary once");
    }
    for (auto d : m.faces()) { ++faces; vs_check(ce::crossx(d.ps[1] - d.ps[0], d.ps[2] - d.ps[0]) < 0, "every triangle shown has the mesh's orientation"); }
    vs_check((faces == 2 * (unsigned)m.size - 6) & (n == 3 * (unsigned)m.size - 7), "as many triangles and lines as a triangulated square has");
    vs_cover("completes");
}
