// Memory model for the code under test (bitcode only: runs in the engine and in the native replay).
// Every atomic access of the code under test is turned into one of these calls. Each location keeps the history of
// its values; a load may return any value not older than what its thread has already seen, and a sequentially
// consistent one nothing older than the last sequentially consistent write. A read-modify-write acts on the newest value.
#include "vs.h"
extern "C" uint32_t vs_self();
namespace {
enum : uint32_t { NT = 6, NL = 6, NM = 24, RELAXED = 2, ACQUIRE = 4, RELEASE = 5, ACQREL = 6, SC = 7 };
struct view { uint32_t at[NL]; };
struct msg { uint64_t v; view w; };
struct loc { char* p; uint32_t size, n, sc; msg m[NM]; };
loc L[NL]; uint32_t nl;
view V[NT], A[NT], R[NT], S; bool known[NT];
uint32_t spurious = 1, plain_ld = RELAXED, plain_st = RELAXED;
inline void join(view& a, const view& b) { for (uint32_t i = 0; i < nl; ++i) if (b.at[i] > a.at[i]) a.at[i] = b.at[i]; }
inline bool acq(uint32_t o) { return o == ACQUIRE || o == ACQREL || o == SC; }
inline bool rel(uint32_t o) { return o == RELEASE || o == ACQREL || o == SC; }
uint64_t get(void* p, uint32_t size) { switch (size) { case 1: return *(uint8_t*)p; case 2: return *(uint16_t*)p; case 4: return *(uint32_t*)p; default: return *(uint64_t*)p; } }
void put(void* p, uint32_t size, uint64_t v) { switch (size) { case 1: *(uint8_t*)p = (uint8_t)v; break; case 2: *(uint16_t*)p = (uint16_t)v; break; case 4: *(uint32_t*)p = (uint32_t)v; break; default: *(uint64_t*)p = v; } }
uint64_t mask(uint32_t size, uint64_t v) { return size >= 8 ? v : v & ((1ull << (8 * size)) - 1); }
loc* find(void* p) { for (uint32_t i = 0; i < nl; ++i) if (L[i].p == p) return &L[i]; return nullptr; }
loc& reg(void* p, uint32_t size)
{
    if (loc* l = find(p)) return *l;
    if (nl == NL) vs_fail("more atomic locations than the model holds");
    loc& l = L[nl++]; l.p = (char*)p; l.size = size; l.n = 1; l.sc = 0; l.m[0].v = get(p, size); return l;
}
uint32_t self() { uint32_t t = vs_self(); if (!known[t]) { known[t] = true; if (t) V[t] = V[0]; } return t; }
void append(uint32_t t, loc& l, uint64_t v, uint32_t o, const view* seq)
{
    if (l.n == NM) vs_fail("more writes than the model holds");
    uint32_t i = (uint32_t)(&l - L); msg& m = l.m[l.n]; V[t].at[i] = l.n; m.v = mask(l.size, v); m.w = rel(o) ? V[t] : R[t]; m.w.at[i] = l.n; if (seq) join(m.w, *seq);
    if (o == SC) l.sc = l.n;
    ++l.n; put(l.p, l.size, v);
}
uint64_t take(uint32_t t, loc& l, uint32_t k, uint32_t o)
{
    uint32_t i = (uint32_t)(&l - L); if (V[t].at[i] < k) V[t].at[i] = k; join(A[t], l.m[k].w); if (acq(o)) join(V[t], l.m[k].w);
    return l.m[k].v;
}
uint32_t pick(uint32_t t, loc& l, uint32_t o)
{
    uint32_t i = (uint32_t)(&l - L), lo = V[t].at[i]; if (o == SC && l.sc > lo) lo = l.sc;
    return lo + 1 == l.n ? lo : lo + (uint32_t)vs_concretize(vs_range(0, l.n - 1 - lo, "read"));
}
}
extern "C" {
uint32_t vs_at_ok;
void vs_at_reg(void* p, uint32_t size) { reg(p, size); }
void vs_at_spurious(uint32_t n) { spurious = n; }
// a load sees memory as it is, a store may reach it later
void vs_at_x86() { plain_ld = SC; plain_st = RELEASE; }
void vs_at_joined() { for (uint32_t i = 0; i < nl; ++i) V[0].at[i] = L[i].n - 1; }
uint64_t vs_at_load(void* p, uint32_t size, uint32_t o) { vs_yield(); uint32_t t = self(); loc& l = reg(p, size); return take(t, l, pick(t, l, o), o); }
void vs_at_store(void* p, uint32_t size, uint64_t v, uint32_t o) { vs_yield(); append(self(), reg(p, size), v, o, nullptr); }
uint64_t vs_at_rmw(void* p, uint32_t size, uint32_t op, uint64_t v, uint32_t o)
{
    vs_yield(); uint32_t t = self(); loc& l = reg(p, size); uint32_t k = l.n - 1; uint64_t e = take(t, l, k, o), r = v; uint32_t sh = 64 - 8 * size; int64_t se = (int64_t)(e << sh) >> sh, sv = (int64_t)(v << sh) >> sh;
    switch (op) { case 0: break; case 1: r = e + v; break; case 2: r = e - v; break; case 3: r = e & v; break; case 4: r = ~(e & v); break; case 5: r = e | v; break; case 6: r = e ^ v; break;
        case 7: r = se > sv ? e : v; break; case 8: r = se < sv ? e : v; break; case 9: r = e > v ? e : v; break; case 10: r = e < v ? e : v; break; default: vs_fail("unknown atomic operation"); }
    append(t, l, r, o, &l.m[k].w); return e;
}
uint64_t vs_at_cas(void* p, uint32_t size, uint64_t e, uint64_t v, uint32_t o, uint32_t of, uint32_t weak)
{
    vs_yield(); uint32_t t = self(); loc& l = reg(p, size); uint32_t k = l.n - 1; vs_at_ok = 0; e = mask(size, e);
    if (weak && spurious && vs_concretize(vs_sym(1, "spurious"))) { --spurious; return take(t, l, k, of); }
    if (l.m[k].v == e) { take(t, l, k, o); append(t, l, v, o, &l.m[k].w); vs_at_ok = 1; return e; }
    k = pick(t, l, of); if (l.m[k].v == e) k = l.n - 1;
    return take(t, l, k, of);
}
void vs_at_fence(uint32_t o) { vs_yield(); uint32_t t = self(); if (acq(o)) join(V[t], A[t]); if (o == SC) { join(V[t], S); S = V[t]; } if (rel(o)) R[t] = V[t]; }
// accesses of the code under test that are not atomic: on a shared location no better than a relaxed one, unless told
uint64_t vs_at_plain_load(void* p, uint32_t size) { return find(p) ? vs_at_load(p, size, plain_ld) : get(p, size); }
void vs_at_plain_store(void* p, uint32_t size, uint64_t v) { if (find(p)) vs_at_store(p, size, v, plain_st); else put(p, size, v); }
}
