// C01 bulk as a sequence, C02 bulk item lifetimes, C03 min_priority_queue, C04 bitset, C05 span, C06 dictionary, C07 pool
#include <ce/ce.h>
#include <ce/dictionary.h>
#include <ce/pool.h>
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#include "vs.h"
struct place { };
inline void* operator new(size_t, place, void* p) noexcept { return p; }
static unsigned pick(unsigned lo, unsigned hi, const char* n) { return (unsigned)vs_concretize(vs_range(lo, hi, n)); }

//---- C01. One operation from every state a bulk can be in (every length, every content); a container allocated exactly, so that the engine's bounds are its own
struct num { uint64_t v; num() : v(77) { } num(uint64_t x) : v(x) { } bool operator==(num const& o) const { return v == o.v; } };
struct agg { uint32_t a; uint32_t b; bool operator==(agg const& o) const { return a == o.a && b == o.b; } };
static uint64_t raw(uint64_t v) { return v; } static uint64_t raw(num const& n) { return n.v; } static uint64_t raw(agg const& n) { return (uint64_t)n.a << 32 | n.b; } static uint64_t raw(uint8_t v) { return v; }
template<class T> struct mk { static T get() { return T(vs_any<T>("item")); } static constexpr bool init = false; };
template<> struct mk<num> { static num get() { return num(vs_any<uint64_t>("item")); } static constexpr bool init = true; };
template<> struct mk<agg> { static agg get() { return agg{ vs_any<uint32_t>("item"), vs_any<uint32_t>("item") }; } static constexpr bool init = false; };
template<unsigned N, class T> struct seq
{
    using bulk = ce::bulk<N, T>; bulk* b; uint64_t m[N + 1]; unsigned n;
    void make() { b = static_cast<bulk*>(__builtin_malloc(sizeof(bulk))); new (place{}, b) bulk; n = 0; vs_check(b->size == 0, "a new bulk is empty"); }
    void fill() { make(); unsigned k = pick(0, N, "length"); for (unsigned i = 0; i < k; ++i) { T v = mk<T>::get(); m[n++] = raw(v); vs_check(b->append(v), "append succeeds while there is room"); } check(); }
    void check(unsigned unknown = ~0u) const
    {
        vs_check(b->size == n, "length"); vs_check(b->room() == N - n && bulk::capacity() == N, "room and capacity");
        for (unsigned i = 0; i < n; ++i) if (i < unknown) { vs_observe(raw((*b)[i])); vs_check(raw((*b)[i]) == m[i], "items in order"); }
        vs_check(b->begin() == &b->data[0] && (size_t)(b->end() - b->begin()) == n, "begin and end"); bulk const& c = *b; vs_check(c.begin() == &b->data[0] && c.end() == b->end() && (n == 0 || &c[n - 1] == &b->data[n - 1]), "constant views");
        auto s = make_span(*b); auto cs = make_span(c); vs_check(s.size == n && s.data == b->begin() && cs.size == n && cs.data == b->begin(), "make_span views the items"); vs_check(n == 0 || (&b->back() == &(*b)[n - 1] && &c.back() == &b->back()), "back is the last item");
    }
    void drop() { b->~bulk(); __builtin_free(b); }
};
enum { APPEND, APPEND_N, RESIZE, CLEAR, REMOVE, REMOVE_ORDERED, OPS };
template<unsigned N, class T> static void op(seq<N, T>& s, unsigned o)
{
    unsigned known = ~0u; auto grow = [&](size_t to) { if (!mk<T>::init && to > s.n) known = s.n; while (s.n < to) s.m[s.n++] = 77; s.n = (unsigned)to; };
    switch (o)
    {
    case APPEND: { T v = mk<T>::get(); bool r = s.b->append(v); vs_check(r == (s.n < N), "append succeeds exactly when there is room"); if (r) s.m[s.n++] = raw(v); break; }
    case APPEND_N: { size_t k = vs_any<size_t>("count"); bool r = s.b->append_n(k); vs_check(r == (k <= N - s.n), "append_n succeeds exactly when there is room"); if (r) grow(s.n + (size_t)vs_concretize(k)); break; }
    case RESIZE: { size_t k = vs_any<size_t>("count"); bool r = s.b->resize(k); vs_check(r == (k <= N), "resize succeeds exactly within the capacity"); if (r) grow((size_t)vs_concretize(k)); break; }
    case CLEAR: s.b->clear(); s.n = 0; break;
    case REMOVE: { size_t i = vs_any<size_t>("index"); bool r = s.b->remove_at(i); vs_check(r == (i < s.n), "remove_at succeeds exactly for an item"); if (r) { i = vs_concretize(i); s.m[i] = s.m[--s.n]; } break; }
    case REMOVE_ORDERED: { size_t i = vs_any<size_t>("index"); bool r = s.b->template remove_at<true>(i); vs_check(r == (i < s.n), "remove_at succeeds exactly for an item"); if (r) { i = vs_concretize(i); --s.n; for (; i < s.n; ++i) s.m[i] = s.m[i + 1]; } break; }
    }
    s.check(known);
}
template<unsigned N, class T> static void c1_single() { seq<N, T> s; s.fill(); op(s, pick(0, OPS - 1, "op")); s.drop(); vs_cover("completes"); }
template<unsigned N, class T> static void c1_copy()
{
    seq<N, T> a, b; a.fill(); b.make(); b.drop(); b.b = static_cast<ce::bulk<N, T>*>(__builtin_malloc(sizeof(ce::bulk<N, T>))); new (place{}, b.b) ce::bulk<N, T>(*a.b); for (unsigned i = 0; i < a.n; ++i) b.m[i] = a.m[i]; b.n = a.n; a.check(); b.check();
    op(b, pick(0, OPS - 1, "op")); a.check(); a.drop(); if (b.n) vs_observe(raw((*b.b)[0])); b.drop(); vs_cover("completes");
}
template<unsigned N, class T> static void c1_assign()
{
    seq<N, T> a, b; a.fill(); b.fill(); auto& r = (*b.b = *a.b); vs_check(&r == b.b, "assignment returns the container"); for (unsigned i = 0; i < a.n; ++i) b.m[i] = a.m[i]; b.n = a.n; a.check(); b.check();
    *b.b = *b.b; b.check(); op(a, pick(0, OPS - 1, "op")); b.check(); a.drop(); b.drop(); vs_cover("completes");
}
template<unsigned N, class T, unsigned STEPS> static void c1_steps() { seq<N, T> s; s.make(); s.check(); for (unsigned i = 0; i < STEPS; ++i) op(s, pick(0, OPS - 1, "op")); s.drop(); vs_cover("completes"); }
VS_ENTRY(c1_single_u64_1) { c1_single<1, uint64_t>(); }
VS_ENTRY(c1_single_u64_5) { c1_single<5, uint64_t>(); }
VS_ENTRY(c1_single_u8_8) { c1_single<8, uint8_t>(); }
VS_ENTRY(c1_single_num_1) { c1_single<1, num>(); }
VS_ENTRY(c1_single_num_5) { c1_single<5, num>(); }
VS_ENTRY(c1_single_agg_3) { c1_single<3, agg>(); }
VS_ENTRY(c1_copy_u64) { c1_copy<3, uint64_t>(); }
VS_ENTRY(c1_copy_num) { c1_copy<3, num>(); }
VS_ENTRY(c1_copy_agg) { c1_copy<2, agg>(); }
VS_ENTRY(c1_assign_u64) { c1_assign<3, uint64_t>(); }
VS_ENTRY(c1_assign_num) { c1_assign<4, num>(); }
VS_ENTRY(c1_assign_agg) { c1_assign<2, agg>(); }
VS_ENTRY(c1_steps_num) { c1_steps<2, num, 3>(); }
VS_ENTRY(c1_append_args)
{   // append builds the item from its arguments
    ce::bulk<2, agg> b; uint32_t x = vs_any<uint32_t>("x"), y = vs_any<uint32_t>("y"); vs_check(b.append(x, y) && b.append(agg{ y, x }) && !b.append(x, x), "append succeeds exactly when there is room");
    vs_check(b[0].a == x && b[0].b == y && b[1].a == y && b[1].b == x && b.size == 2, "append builds the item from its arguments"); unsigned k = 0; for (auto& i : b) { vs_check(&i == &b[k], "iteration visits every item in order"); ++k; } vs_check(k == 2, "iteration visits every item in order"); vs_cover("completes");
}
VS_ENTRY(c1_single_u64_9) { c1_single<9, uint64_t>(); }
VS_ENTRY(c1_assign_num_6) { c1_assign<6, num>(); }
VS_ENTRY(c1_steps_num_5) { c1_steps<3, num, 4>(); }

//---- C02. Items that know whether they are alive, in storage that starts out dead
static int live;
static const uint32_t ALIVE = 0x600d600d, DEAD = 0xdeaddead;
struct base
{
    uint32_t value; uint32_t mark;
    void born(uint32_t v) { vs_check(mark != ALIVE, "no item is constructed over a live one"); mark = ALIVE; value = v; ++live; }
    void used() const { vs_check(mark == ALIVE, "only live items are used"); }
};
struct item : base { item() { born(1); } item(item const& o) { o.used(); born(o.value); } item(uint32_t v) { born(v); } item& operator=(item const& o) { used(); o.used(); value = o.value; return *this; } ~item() { used(); mark = DEAD; --live; } };
struct nocopy : base { nocopy() { born(1); } nocopy(nocopy const&) = delete; nocopy(uint32_t v) { born(v); } nocopy& operator=(nocopy const& o) { used(); o.used(); value = o.value; return *this; } ~nocopy() { used(); mark = DEAD; --live; } };
template<unsigned N, class T> static ce::bulk<N, T>* storage()
{
    using bulk = ce::bulk<N, T>; auto* c = static_cast<unsigned char*>(__builtin_malloc(sizeof(bulk))); auto* w = reinterpret_cast<uint32_t*>(c); for (unsigned i = 0; i < sizeof(bulk) / 4; ++i) w[i] = DEAD; return reinterpret_cast<bulk*>(c);
}
template<size_t N, class T> static void slots(ce::bulk<N, T> const& b)
{
    vs_check(b.size <= N, "length within the capacity"); auto* w = reinterpret_cast<base const*>(&b.data[0]);
    for (unsigned i = 0; i < N; ++i) vs_check((w[i].mark == ALIVE) == (i < b.size), "exactly the slots below the length hold a live item");
}
template<unsigned N, class T, bool PAIR> static void c2(unsigned steps)
{
    using bulk = ce::bulk<N, T>; live = 0; bulk* a = storage<N, T>(); new (place{}, a) bulk; bulk* b = nullptr; slots(*a); vs_check(live == 0, "a new bulk constructs no item");
    for (unsigned k = pick(0, N, "length"); k--;) a->append(vs_any<uint32_t>("item"));
    if (PAIR) { b = storage<N, T>(); if (vs_range(0, 1, "copy")) { new (place{}, b) bulk(*a); vs_check(b->size == a->size, "a copy has the same length"); } else { new (place{}, b) bulk; for (unsigned k = pick(0, N, "length"); k--;) b->append(vs_any<uint32_t>("item")); } slots(*b); }
    for (unsigned s = 0; s < steps; ++s)
    {
        switch (pick(0, PAIR ? 8 : 6, "op"))
        {
        case 0: a->append(vs_any<uint32_t>("item")); break;
        case 1: a->append_n(vs_concretize(vs_range(0, N + 1, "count"))); break;
        case 2: a->resize(vs_concretize(vs_range(0, N + 1, "count"))); break;
        case 3: a->clear(); break;
        case 4: a->remove_at(vs_concretize(vs_range(0, N, "index"))); break;
        case 5: a->template remove_at<true>(vs_concretize(vs_range(0, N, "index"))); break;
        case 6: *a = *a; break;
        case 7: *a = *b; break;
        case 8: *b = *a; break;
        }
        slots(*a); if (b) slots(*b); vs_check(live == (int)(a->size + (b ? b->size : 0)), "as many live items as the containers hold");
    }
    vs_observe(a->size); a->~bulk(); if (b) b->~bulk(); vs_check(live == 0, "every constructed item is destroyed"); vs_cover("completes");
}
VS_ENTRY(c2_item_1) { c2<1, item, false>(2); }
VS_ENTRY(c2_item_4) { c2<4, item, false>(1); }
VS_ENTRY(c2_item_2_steps) { c2<2, item, false>(3); }
VS_ENTRY(c2_pair) { c2<3, item, true>(1); }
VS_ENTRY(c2_pair_2) { c2<2, item, true>(2); }
VS_ENTRY(c2_nocopy) { c2<3, nocopy, true>(1); }
VS_ENTRY(c2_pair_4) { c2<5, item, true>(2); }
VS_ENTRY(c2_item_5_steps) { c2<4, item, false>(3); }

//---- C03
template<class K> struct ordk { K key, tag; bool operator<(ordk const& o) const { return key < o.key; } };
template<unsigned N, class ord> static unsigned count(ord const* d, unsigned n, ord q) { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += (unsigned)(d[i].key == q.key) & (unsigned)(d[i].tag == q.tag); return c; }
template<size_t N, class ord> static void drain(ce::min_priority_queue<N, ord>& q, ord* held, unsigned n, ord probe)
{
    ord out[N + 1]; for (unsigned i = 0; i < n; ++i) { vs_check(!q.empty(), "not empty while an item is held"); ord h = q.head(); out[i] = q.dequeue(); vs_observe(out[i].key); vs_check(h.key == out[i].key && h.tag == out[i].tag, "head shows the item dequeue hands out"); vs_check(i == 0 || !(out[i] < out[i - 1]), "every dequeue hands out a smallest item"); }
    vs_check(q.empty() && q.size == 0, "empty after every item was dequeued"); vs_check(count<(unsigned)N>(out, n, probe) == count<(unsigned)N>(held, n, probe), "the items dequeued are the items enqueued");
}
template<class K> static ordk<K> anyordk() { return { vs_any<K>("key"), vs_any<K>("tag") }; }
// any heap, then one operation, then everything is dequeued
template<unsigned N, unsigned LO, unsigned HI, class K = uint32_t> static void c3_step()
{
    using ord = ordk<K>; auto anyord = [] { return anyordk<K>(); };
    auto& q = *static_cast<ce::min_priority_queue<N, ord>*>(__builtin_malloc(sizeof(ce::min_priority_queue<N, ord>))); unsigned n = pick(LO, HI, "length"); ord held[N + 1]; for (unsigned i = 0; i < N; ++i) q.data[i] = held[i] = anyord();
    for (unsigned i = 1; i < n; ++i) vs_assume(held[(i - 1) / 2].key <= held[i].key);
    q.size = n; ord probe = anyord(); vs_check(q.empty() == (n == 0), "empty exactly when nothing is held");
    if (vs_range(0, 1, "op")) { ord x = anyord(); bool r = q.enqueue(x); vs_check(r == (n < N), "enqueue succeeds exactly when there is room"); if (r) held[n++] = x; vs_check(q.size == n, "enqueue adds one item"); }
    drain(q, held, n, probe); vs_cover("completes");
}
template<unsigned N, unsigned STEPS, class K = uint32_t> static void c3_hist()
{
    using ord = ordk<K>; auto anyord = [] { return anyordk<K>(); };
    ce::min_priority_queue<N, ord> q{}; ord held[N + 1]; unsigned n = 0;
    for (unsigned s = 0; s < STEPS; ++s)
        if (vs_range(0, 1, "op")) { ord x = anyord(); bool r = q.enqueue(x); vs_check(r == (n < N), "enqueue succeeds exactly when there is room"); if (r) held[n++] = x; }
        else if (n) { ord h = q.head(), x = q.dequeue(); vs_observe(x.key); vs_check(h.key == x.key && h.tag == x.tag, "head shows the item dequeue hands out"); unsigned at = n; for (unsigned i = 0; i < n; ++i) { vs_check(held[i].key >= x.key, "every dequeue hands out a smallest item"); } for (unsigned i = n; i--;) if (held[i].key == x.key && held[i].tag == x.tag) { at = i; break; } vs_check(at < n, "dequeue hands out an item that was held"); held[at] = held[--n]; vs_check(q.size == n, "dequeue removes one item"); }
    ord probe = anyord(); drain(q, held, n, probe); vs_cover("completes");
}
VS_ENTRY(c3_step_4) { c3_step<5, 0, 4>(); }
VS_ENTRY(c3_step_5) { c3_step<5, 5, 5, uint8_t>(); }
VS_ENTRY(c3_step_6) { c3_step<7, 6, 6, uint8_t>(); }
VS_ENTRY(c3_step_7) { c3_step<7, 7, 7, uint8_t>(); }
VS_ENTRY(c3_step_8) { c3_step<9, 8, 8, uint8_t>(); }
VS_ENTRY(c3_step_1) { c3_step<1, 0, 1>(); }
VS_ENTRY(c3_hist_4) { c3_hist<3, 4>(); }
VS_ENTRY(c3_hist_6) { c3_hist<4, 6>(); }

//---- C04
template<unsigned N> static void c4()
{
    auto& b = *static_cast<ce::bitset<N>*>(__builtin_malloc(sizeof(ce::bitset<N>))); vs_check(sizeof b == (N + 7) / 8, "one bit per index"); for (auto& x : b.data) x = vs_any<uint8_t>("content");
    bool was[N]; for (unsigned i = 0; i < N; ++i) was[i] = b.data[i / 8] >> (i % 8) & 1;
    unsigned i = (unsigned)vs_range(0, N - 1, "index"); unsigned v = (unsigned)vs_range(0, 1, "value"), o = pick(0, 5, "op"); bool all = false, to = false;
    switch (o) { case 0: b.set(i); to = true; break; case 1: b.reset(i); break; case 2: b.set(i, v != 0); to = v != 0; break; case 3: b.set(); all = to = true; break; case 4: b.reset(); all = true; break; case 5: to = b[i]; break; }
    for (unsigned j = 0; j < N; ++j) { bool r = b[j]; vs_observe(r); vs_check(r == (all || j == i ? to : was[j]), "each index reads the value last given to it"); }
    vs_check(b.get_size() == N, "size"); vs_cover("completes");
}
VS_ENTRY(c4_1) { c4<1>(); }
VS_ENTRY(c4_7) { c4<7>(); }
VS_ENTRY(c4_8) { c4<8>(); }
VS_ENTRY(c4_9) { c4<9>(); }
VS_ENTRY(c4_20) { c4<20>(); }
VS_ENTRY(c4_64) { c4<64>(); }
VS_ENTRY(c4_131) { c4<131>(); }

//---- C05
VS_ENTRY(c5_ranges)
{
    using span = ce::span<uint32_t>; size_t n = vs_range(0, 1ull << 40, "size"), k = vs_any<size_t>("count"); auto* d = reinterpret_cast<uint32_t*>(0x10000000000ull);
    span s{ n, d }; span a = skip(s, k), b = trim(s, k); vs_observe(a.size); vs_observe(b.size);
    vs_check(a.size == (k < n ? n - k : 0) && b.size == (k < n ? n - k : 0), "as many items remain as were not dropped"); vs_check(k >= n || (a.data == d + k && b.data == d), "skip drops the first items, trim the last"); vs_check(a.data >= d && a.data + a.size <= d + n && b.data >= d && b.data + b.size <= d + n, "the result lies within the original");
    vs_check(s.begin() == d && s.end() == d + n, "begin and end"); span const c = s; vs_check(c.begin() == d && c.end() == d + n, "begin and end"); size_t j = vs_any<size_t>("count 2"); span ab = skip(b, j); vs_check(ab.size == (k < n && j < n - k ? n - k - j : 0), "skip of trim"); vs_cover("completes");
}
VS_ENTRY(c5_iterate)
{
    unsigned n = pick(0, 5, "size"), k = pick(0, 6, "count"); auto* d = static_cast<uint32_t*>(__builtin_malloc(4 * n + !n)); uint32_t m[5]; for (unsigned i = 0; i < n; ++i) d[i] = m[i] = vs_any<uint32_t>("item");
    ce::span<uint32_t> s{ n, d }; unsigned c = 0; for (auto& x : skip(s, k)) { vs_check(k + c < n && x == m[k + c], "iterates the items in order"); vs_observe(x); ++c; } vs_check(c == (k < n ? n - k : 0), "iterates every item"); c = 0; for (auto& x : trim(s, k)) { vs_check(x == m[c], "iterates the items in order"); ++c; } vs_check(c == (k < n ? n - k : 0), "iterates every item"); vs_cover("completes");
}

//---- C06
struct val { uint32_t a, b; };
template<unsigned N, class K> struct dict
{
    using D = ce::dictionary<(int)N, val, K>; D& d; K name[N + 1]; val v[N + 1]; typename D::ptr_t at[N + 1]; unsigned n = 0;
    dict() : d(*new (place{}, __builtin_malloc(sizeof(D))) D{}) { }
    void check()
    {
        for (unsigned i = 0; i < n; ++i) { auto p = d.find(name[i]); vs_check(p != D::ptr_t::nil, "a bound name is found"); vs_check(d[p].a == v[i].a && d[p].b == v[i].b, "a name finds the value last bound to it"); vs_check(p == at[i], "an entry stays where it is"); vs_observe(d[name[i]].a); D const& c = d; vs_check(&c[name[i]] == &d[p] && &d[name[i]] == &d[p] && &c[p] == &d[p], "lookup by name and by position agree"); }
    }
    void absent() { K q = vs_any<K>("query"); bool held = false; for (unsigned i = 0; i < n; ++i) held |= q == name[i]; auto p = d.find(q); vs_check((p == D::ptr_t::nil) == !held, "a name that was never bound is reported as nil"); }
    void bind()
    {
        K q = vs_any<K>("name"); val x{ vs_any<uint32_t>("value"), vs_any<uint32_t>("value") }; unsigned i = 0; while (i < n && name[i] != q) ++i;
        auto size = d.size; auto p = d.bind(q, x.a, x.b);
        if (i < n) { vs_check(p == at[i], "binding a name again replaces its value in place"); vs_check(d.size == size, "binding a name again adds no entry"); v[i] = x; }
        else if (n == N - 1) { vs_check(p == D::ptr_t::nil, "binding fails when the storage is full"); vs_check(d.size == size, "a failed bind changes nothing"); }
        else { vs_check(p != D::ptr_t::nil, "binding a new name succeeds while there is room"); for (unsigned k = 0; k < n; ++k) vs_check(p != at[k], "a new name gets its own entry"); name[n] = q; v[n] = x; at[n] = p; ++n; }
    }
};
template<unsigned N, class K> static void c6(unsigned steps) { dict<N, K> d; d.absent(); for (unsigned s = 0; s < steps; ++s) { d.bind(); d.check(); } d.absent(); vs_cover("completes"); }
VS_ENTRY(c6_u32_2) { c6<2, uint32_t>(3); }
VS_ENTRY(c6_u32_4) { c6<4, uint32_t>(4); }
VS_ENTRY(c6_u64_3) { c6<3, uint64_t>(3); }
VS_ENTRY(c6_u8_5) { c6<5, uint8_t>(4); }
VS_ENTRY(c6_i32_1) { c6<1, int>(2); }
VS_ENTRY(c6_u32_6) { c6<6, uint32_t>(7); }

//---- C07
template<unsigned N, class I, unsigned Q> static void c7(unsigned steps)
{
    using P = ce::pool<N, uint32_t, I>; auto& p = *static_cast<P*>(__builtin_malloc(sizeof(P))); p.reset(); typename P::queue_t q[Q]; uint32_t m[Q][N]; unsigned n[Q] = {}, total = 0; for (auto& x : q) { x.reset(); vs_check(p.is_empty(x), "a new queue is empty"); }
    vs_check(P::capacity() == N, "capacity");
    for (unsigned s = 0; s < steps; ++s)
    {
        unsigned k = pick(0, Q - 1, "queue"), o = pick(0, 2, "op");
        if (o == 2) { bool r = p.remove_head(q[k]); vs_check(r == (n[k] > 0), "remove_head fails exactly on an empty queue"); if (r) { for (unsigned i = 1; i < n[k]; ++i) m[k][i - 1] = m[k][i]; --n[k]; --total; } }
        else { uint32_t v = vs_any<uint32_t>("item"); bool r = o ? p.insert_head(q[k], v) : p.append_tail(q[k], v); vs_check(r == (total < N - 1), "an insertion succeeds exactly while fewer than N-1 items are held"); if (r) { if (o) { for (unsigned i = n[k]; i; --i) m[k][i] = m[k][i - 1]; m[k][0] = v; } else m[k][n[k]] = v; ++n[k]; ++total; } }
        for (unsigned i = 0; i < Q; ++i) { vs_check(p.is_empty(q[i]) == (n[i] == 0), "is_empty"); if (n[i]) { vs_observe(p.head(q[i])); vs_check(p.head(q[i]) == m[i][0], "head is the first item"); vs_check(p.tail(q[i]) == m[i][n[i] - 1], "tail is the last item"); } }
    }
    for (unsigned k = 0; k < Q; ++k) { for (unsigned i = 0; i < n[k]; ++i) { vs_check(!p.is_empty(q[k]) && p.head(q[k]) == m[k][i] && p.tail(q[k]) == m[k][n[k] - 1], "the queue holds its items in order"); vs_check(p.remove_head(q[k]), "remove_head removes an item"); } vs_check(p.is_empty(q[k]) && !p.remove_head(q[k]), "the queue ends after its last item"); }
    // every node is usable again
    for (unsigned i = 0; i < N - 1; ++i) vs_check(p.append_tail(q[0], i), "every removed node is usable again"); vs_check(!p.append_tail(q[0], 0) && !p.insert_head(q[Q - 1], 0), "the store holds N-1 items");
    for (unsigned i = 0; i < N - 1; ++i) { vs_check(p.head(q[0]) == i, "the queue holds its items in order"); p.remove_head(q[0]); } vs_check(p.is_empty(q[0]), "the queue ends after its last item"); vs_cover("completes");
}
VS_ENTRY(c7_two) { c7<4, uint16_t, 2>(5); }
VS_ENTRY(c7_three) { c7<3, uint8_t, 3>(4); }
VS_ENTRY(c7_one) { c7<5, uint32_t, 1>(6); }
VS_ENTRY(c7_small) { c7<2, uint8_t, 2>(4); }
VS_ENTRY(c7_limit) { c7<256, uint8_t, 2>(2); }
VS_ENTRY(c7_alloc)
{   // node indices handed out directly
    using P = ce::pool<4, uint32_t, uint8_t>; auto& p = *static_cast<P*>(__builtin_malloc(sizeof(P))); p.reset(); uint8_t held[4]; unsigned n = 0;
    for (unsigned s = 0; s < 6; ++s) if (vs_range(0, 1, "op")) { uint8_t i = p.alloc_index(); vs_check((i == 0) == (n == 3), "an index is available exactly while fewer than N-1 are held"); if (i) { vs_check(i < 4, "index within the store"); for (unsigned k = 0; k < n; ++k) vs_check(held[k] != i, "an index is handed out once"); held[n++] = i; } } else if (n) { unsigned k = pick(0, n - 1, "which"); p.free_index(held[k]); held[k] = held[--n]; } else p.free_index(0);
    vs_cover("completes");
}
VS_ENTRY(c7_two_7) { c7<4, uint16_t, 2>(7); }
VS_ENTRY(c7_three_5) { c7<4, uint8_t, 3>(5); }
