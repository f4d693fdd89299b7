// A01: atomic operations (lib/h/ce/atomic_std.h) under every interleaving of a few threads and the memory model of rt/vs_atomic.cpp
#include "vs.h"
#include <string.h>
#include <stddef.h>
#ifdef MSVC_ATOMIC // A02: the same for lib/h/ce/atomic_msvc_x86.h; the compiler's intrinsics are functions here
#include <emmintrin.h>
#include "ce/ce.h"
using ms_int64 = long long;
static void vs_pause_(); // in a loop that waits for a lock
#define _MSC_VER 1930
#define __int8 char
#define __int16 short
#define __int32 int
#define __int64 ms_int64
#define long int
#define _mm_pause() vs_pause_()
#include "ce/atomic_msvc_x86.h"
#undef long
#undef _mm_pause
#undef _MSC_VER
static void* volatile* spinning;
static void vs_pause_() { uint32_t low; memcpy(&low, (void*)spinning, 4); vs_assume(low != 0); /* a look that came too early says nothing new */ vs_wait((volatile uint32_t*)spinning); }
extern "C" {
char _InterlockedExchange8(char volatile* p, char v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
short _InterlockedExchange16(short volatile* p, short v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int _InterlockedExchange(int volatile* p, int v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
ms_int64 _InterlockedExchange64(ms_int64 volatile* p, ms_int64 v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
void* _InterlockedExchangePointer(void* volatile* p, void* v) { spinning = p; return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
char _InterlockedExchangeAdd8(char volatile* p, char v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
short _InterlockedExchangeAdd16(short volatile* p, short v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
int _InterlockedExchangeAdd(int volatile* p, int v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
ms_int64 _InterlockedExchangeAdd64(ms_int64 volatile* p, ms_int64 v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
char _InterlockedCompareExchange8(char volatile* p, char v, char e) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
short _InterlockedCompareExchange16(short volatile* p, short v, short e) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
int _InterlockedCompareExchange(int volatile* p, int v, int e) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ms_int64 _InterlockedCompareExchange64(ms_int64 volatile* p, ms_int64 v, ms_int64 e) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
void* _InterlockedCompareExchangePointer(void* volatile* p, void* v, void* e) { spinning = p; __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
#define MS_MORE(N, T) T _InterlockedAnd##N(T volatile* p, T v) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } T _InterlockedOr##N(T volatile* p, T v) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } T _InterlockedXor##N(T volatile* p, T v) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
MS_MORE(8, char) MS_MORE(16, short) MS_MORE(, int) MS_MORE(64, ms_int64)
#define MS_ISO(N, T) T __iso_volatile_load##N(T const volatile* p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); } void __iso_volatile_store##N(T volatile* p, T v) { __atomic_store_n(p, v, __ATOMIC_RELEASE); }
MS_ISO(8, char) MS_ISO(16, short) MS_ISO(32, int) MS_ISO(64, ms_int64)
void _WriteBarrier() { __atomic_signal_fence(__ATOMIC_SEQ_CST); }
void _ReadBarrier() { __atomic_signal_fence(__ATOMIC_SEQ_CST); }
void _ReadWriteBarrier() { __atomic_signal_fence(__ATOMIC_SEQ_CST); }
}
#else
#include "ce/atomic_std.h"
#endif
using namespace ce;

enum kind : uint32_t { LOAD, STORE, XCHG, CAS, ADD, SUB, AND, OR, XOR };
template<class T> static uint64_t bitsof(T v) { uint64_t r = 0; if constexpr (sizeof(T) == 1) { uint8_t x; memcpy(&x, &v, 1); r = x; } else if constexpr (sizeof(T) == 2) { uint16_t x; memcpy(&x, &v, 2); r = x; } else if constexpr (sizeof(T) == 4) { uint32_t x; memcpy(&x, &v, 4); r = x; } else memcpy(&r, &v, 8); return r; }

struct op { uint32_t k; uint64_t a, b, r, e; bool ok; uint32_t call, ret; };
static uint32_t now_;

template<class T> struct how // arithmetic operands and the sequential meaning of an operation, on bit patterns
{
    static T val(uint64_t x) { return (T)x; }
    static auto num(uint64_t x) { return (T)x; }
    static uint64_t add(uint64_t s, uint64_t v) { return bitsof<T>((T)(s + v)); }
    static uint64_t sub(uint64_t s, uint64_t v) { return bitsof<T>((T)(s - v)); }
};
template<class E> struct how<E*>
{
    static E* val(uint64_t x) { return (E*)x; }
    static ptrdiff_t num(uint64_t x) { return (ptrdiff_t)x; }
    static uint64_t add(uint64_t s, uint64_t v) { return s + v * sizeof(E); }
    static uint64_t sub(uint64_t s, uint64_t v) { return s - v * sizeof(E); }
};
template<class F, class U> struct how_f
{
    static F val(uint64_t x) { U u = (U)x; F f; memcpy(&f, &u, sizeof f); return f; }
    static F num(uint64_t x) { return val(x); }
    static uint64_t add(uint64_t s, uint64_t v) { F f = val(s); f += val(v); return bitsof(f); }
    static uint64_t sub(uint64_t s, uint64_t v) { F f = val(s); f -= val(v); return bitsof(f); }
};
template<> struct how<float> : how_f<float, uint32_t> {};
template<> struct how<double> : how_f<double, uint64_t> {};

#ifdef MSVC_ATOMIC // values larger than the machine's: a lock of the library keeps them whole
extern "C" uint64_t vs_at_plain_load(void*, uint32_t); extern "C" void vs_at_plain_store(void*, uint32_t, uint64_t);
template<unsigned N> struct wide
{
    uint64_t w[N]; wide() = default; explicit wide(uint64_t x) { for (unsigned i = 0; i < N; ++i) poke(i, x * (i + 1)); }
    uint64_t peek(unsigned i) const { return vs_at_plain_load((void*)&w[i], 8); } void poke(unsigned i, uint64_t v) { vs_at_plain_store(&w[i], 8, v); }
    wide(wide const& o) { for (unsigned i = 0; i < N; ++i) poke(i, o.peek(i)); } wide& operator=(wide const& o) { for (unsigned i = 0; i < N; ++i) poke(i, o.peek(i)); return *this; }
    wide& operator+=(uint64_t v) { for (unsigned i = 0; i < N; ++i) poke(i, peek(i) + v * (i + 1)); return *this; } wide& operator-=(uint64_t v) { return *this += 0 - v; }
};
template<unsigned N> uint64_t operator-(wide<N> const& a, wide<N> const& b) { return a.w[0] - b.w[0]; }
template<unsigned N> static uint64_t bitsof(wide<N> const& v) { bool whole = true; for (unsigned i = 1; i < N; ++i) whole = whole & (v.w[i] == v.w[0] * (i + 1)); vs_check(whole, "no value is torn"); return v.w[0]; }
template<unsigned N> struct how<wide<N>> { static wide<N> val(uint64_t x) { return wide<N>(x); } static uint64_t num(uint64_t x) { return x; } static uint64_t add(uint64_t s, uint64_t v) { return s + v; } static uint64_t sub(uint64_t s, uint64_t v) { return s - v; } };
#endif
template<class T, uint32_t SET> static inline void perform(atomic<T>& x, op& o)
{
    using H = how<T>;
    o.call = now_++; o.ok = false; o.r = 0; o.e = 0;
    auto in = [&](kind k) { return (SET >> k & 1) != 0; };
    if (in(LOAD) && o.k == LOAD) o.r = bitsof(atomic_load(x));
    if (in(STORE) && o.k == STORE) atomic_store(x, H::val(o.a));
    if (in(XCHG) && o.k == XCHG) o.r = bitsof(atomic_exchange(x, H::val(o.a)));
    if constexpr ((SET >> CAS & 1) != 0) if (o.k == CAS) { T e = H::val(o.b); o.ok = atomic_compare_exchange(x, e, H::val(o.a)); o.e = bitsof(e); }
    if constexpr ((SET >> ADD & 1) != 0) if (o.k == ADD) o.r = bitsof(atomic_fetch_add(x, H::num(o.a)));
    if constexpr ((SET >> SUB & 1) != 0) if (o.k == SUB) o.r = bitsof(atomic_fetch_sub(x, H::num(o.a)));
#ifndef MSVC_ATOMIC // there are no such operations
    if constexpr ((SET >> AND & 1) != 0) if (o.k == AND) o.r = bitsof(atomic_fetch_and(x, H::num(o.a)));
    if constexpr ((SET >> OR & 1) != 0) if (o.k == OR) o.r = bitsof(atomic_fetch_or(x, H::num(o.a)));
    if constexpr ((SET >> XOR & 1) != 0) if (o.k == XOR) o.r = bitsof(atomic_fetch_xor(x, H::num(o.a)));
#endif
    o.ret = now_++;
}
template<class T> static inline uint64_t meaning(uint64_t s, const op& o, bool& fits)
{
    using H = how<T>;
    uint64_t m = sizeof(T) < 8 ? (1ull << (8 * (sizeof(T) & 7))) - 1 : ~0ull;
    switch (o.k)
    {
    case LOAD: fits = fits & (o.r == s); return s;
    case STORE: return o.a & m;
    case XCHG: fits = fits & (o.r == s); return o.a & m;
    case CAS: { bool eq = s == (o.b & m); fits = fits & (o.ok == eq) & (o.e == s); return eq ? o.a & m : s; }
    case ADD: fits = fits & (o.r == s); return H::add(s, o.a);
    case SUB: fits = fits & (o.r == s); return H::sub(s, o.a);
    case AND: fits = fits & (o.r == s); return s & o.a & m;
    case OR: fits = fits & (o.r == s); return (s | o.a) & m;
    default: fits = fits & (o.r == s); return (s ^ o.a) & m;
    }
}
template<class T, unsigned N> static void verdict(op* o, uint64_t s0, uint64_t last)
{
    unsigned p[N], used = 0; bool any = false; uint64_t s[N + 1]; bool f[N + 1]; s[0] = s0; f[0] = true;
    // every order that respects what had returned before what was called
    auto rec = [&](auto& self, unsigned d) -> void
    {
        if (d == N) { any = any | (f[N] & (s[N] == last)); return; }
        for (unsigned i = 0; i < N; ++i)
        {
            if (used >> i & 1) continue;
            bool ok = true; for (unsigned j = 0; j < N; ++j) if (!(used >> j & 1) && j != i && o[j].ret < o[i].call) ok = false;
            if (!ok) continue;
            used |= 1u << i; f[d + 1] = f[d]; s[d + 1] = meaning<T>(s[d], o[i], f[d + 1]); p[d] = i; self(self, d + 1); used &= ~(1u << i);
        }
    };
    rec(rec, 0); (void)p;
    vs_check(any, "the operations take effect one after the other, each between its call and its return");
}
template<class T, uint32_t SET> static void choose(op& o, uint64_t (*arg)())
{
    uint32_t n = __builtin_popcount(SET), k = (uint32_t)vs_concretize(vs_range(0, n - 1, "operation")), i = 0;
    for (uint32_t b = 0; b < 9; ++b) if (SET >> b & 1) { if (i == k) o.k = b; ++i; }
    o.a = arg(); o.b = o.k == CAS ? arg() : 0;
}
template<class T, uint32_t SET> struct world { static atomic<T>* x; static op o[4]; static unsigned first[5]; };
template<class T, uint32_t SET> atomic<T>* world<T, SET>::x; template<class T, uint32_t SET> op world<T, SET>::o[4]; template<class T, uint32_t SET> unsigned world<T, SET>::first[5];
template<class T, uint32_t SET> static void body(void* t) { using W = world<T, SET>; for (unsigned i = W::first[(uintptr_t)t]; i < W::first[(uintptr_t)t + 1]; ++i) perform<T, SET>(*W::x, W::o[i]); }

template<class T> static void shared(void* x)
{
#ifdef MSVC_ATOMIC
    vs_at_x86();
#endif
    for (uint32_t i = 0; i < sizeof(T); i += 8) vs_at_reg((char*)x + i, sizeof(T) < 8 ? sizeof(T) : 8);
}
template<class T, uint32_t SET, unsigned A, unsigned B, unsigned C = 0, unsigned D = 0> static void race(uint64_t (*arg)())
{
    using W = world<T, SET>; constexpr unsigned N = A + B + C + D;
    uint64_t s0 = arg(); atomic<T> x(how<T>::val(s0)); s0 = bitsof(how<T>::val(s0)); shared<T>(&x);
    for (unsigned i = 0; i < N; ++i) choose<T, SET>(W::o[i], arg);
    W::x = &x; W::first[0] = 0; W::first[1] = A; W::first[2] = A + B; W::first[3] = A + B + C; W::first[4] = N;
    vs_spawn(body<T, SET>, (void*)0); vs_spawn(body<T, SET>, (void*)1); if (C) vs_spawn(body<T, SET>, (void*)2); if (D) vs_spawn(body<T, SET>, (void*)3);
    vs_join_all(); vs_at_joined();
    uint64_t last = bitsof(atomic_load(x)); vs_check(last == bitsof(x.data), "the data member shows the value held");
    verdict<T, N>(W::o, s0, last);
    for (unsigned i = 0; i < N; ++i) { vs_observe(W::o[i].r); vs_observe(W::o[i].e); }
    vs_cover("completes");
}
template<class T> static uint64_t any() { return vs_sym(sizeof(T) * 8, "value"); }
#ifdef MSVC_ATOMIC
static constexpr uint32_t ALL = 63, MEM = 15, VAL = 63;
#else
static constexpr uint32_t ALL = 511, MEM = 15, VAL = 63;
#endif
enum class colour : uint16_t { red, green = 500, blue = 65535 };
static uint64_t truth() { return vs_sym(1, "value"); }
static uint64_t few() { static const float f[4] = { 0.0f, 1.5f, -2.25f, 1e30f }; uint32_t i = (uint32_t)vs_concretize(vs_sym(1, "value")); return bitsof(f[1 + i]); }
static uint64_t fewd() { static const double f[4] = { 0.0, 0.1, -2.25, 1e300 }; uint32_t i = (uint32_t)vs_concretize(vs_sym(1, "value")); return bitsof(f[1 + i]); }

#ifdef MSVC_ATOMIC
static constexpr uint32_t MORE = XCHG;
#else
static constexpr uint32_t MORE = XOR;
#endif
constexpr uint32_t B(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { return 1u << a | 1u << b | 1u << c | 1u << d; }
VS_ENTRY(a_u32_11) { race<uint32_t, ALL, 1, 1>(any<uint32_t>); }
VS_ENTRY(a_u64_11) { race<uint64_t, ALL, 1, 1>(any<uint64_t>); }
VS_ENTRY(a_u8_21_mem) { race<uint8_t, MEM, 2, 1>(any<uint8_t>); }
VS_ENTRY(a_u8_21_sum) { race<uint8_t, B(LOAD, STORE, ADD, SUB), 2, 1>(any<uint8_t>); }
#ifndef MSVC_ATOMIC
VS_ENTRY(a_u8_21_bit) { race<uint8_t, B(LOAD, AND, OR, XOR), 2, 1>(any<uint8_t>); }
#endif
VS_ENTRY(a_u8_111_mem) { race<uint8_t, MEM, 1, 1, 1>(any<uint8_t>); }
VS_ENTRY(a_u8_111_sum) { race<uint8_t, B(LOAD, CAS, ADD, SUB), 1, 1, 1>(any<uint8_t>); }
#ifndef MSVC_ATOMIC
VS_ENTRY(a_u8_111_bit) { race<uint8_t, B(XCHG, AND, OR, XOR), 1, 1, 1>(any<uint8_t>); }
#endif
VS_ENTRY(a_u8_21) { race<uint8_t, ALL, 2, 1>(any<uint8_t>); }
VS_ENTRY(a_u8_111) { race<uint8_t, ALL, 1, 1, 1>(any<uint8_t>); }
VS_ENTRY(a_u8_22_mem) { race<uint8_t, B(LOAD, STORE, XCHG, CAS), 2, 2>(any<uint8_t>); }
VS_ENTRY(a_u8_22_sum) { race<uint8_t, B(LOAD, CAS, ADD, MORE), 2, 2>(any<uint8_t>); }
VS_ENTRY(a_i32_11) { race<int32_t, ALL, 1, 1>(any<int32_t>); }
VS_ENTRY(a_i64_11) { race<int64_t, ALL, 1, 1>(any<int64_t>); }
VS_ENTRY(a_u8_11) { race<uint8_t, ALL, 1, 1>(any<uint8_t>); }
VS_ENTRY(a_i16_11) { race<int16_t, ALL, 1, 1>(any<int16_t>); }
VS_ENTRY(a_ptr_11) { race<uint32_t*, VAL, 1, 1>(any<uint64_t>); }
VS_ENTRY(a_bool_21) { race<bool, MEM, 2, 1>(truth); }
VS_ENTRY(a_enum_21) { race<colour, MEM, 2, 1>(any<uint16_t>); }
VS_ENTRY(a_float_11) { race<float, VAL, 1, 1>(few); }
VS_ENTRY(a_double_11) { race<double, VAL, 1, 1>(fewd); }
static uint64_t fixed() { return bitsof(1.5f); }
VS_ENTRY(a_float_21_add) { race<float, 1u << ADD, 2, 1>(fixed); }
VS_ENTRY(a_float_111_add) { vs_at_spurious(0); race<float, 1u << ADD, 1, 1, 1>(fixed); }
VS_ENTRY(a_float_111_sub) { vs_at_spurious(0); race<float, 1u << SUB, 1, 1, 1>(fixed); }
VS_ENTRY(a_float_21) { race<float, 1u << ADD | 1u << SUB, 2, 1>(few); }
VS_ENTRY(a_float_111) { race<float, 1u << ADD | 1u << SUB, 1, 1, 1>(few); }

// one thread, any values: what each operation yields and leaves behind
template<class T, uint32_t SET> static void alone(uint64_t (*arg)())
{
    uint64_t s0 = arg(); atomic<T> x(how<T>::val(s0)); s0 = bitsof(how<T>::val(s0)); op o; choose<T, SET>(o, arg);
    vs_check(bitsof(x.data) == s0 && bitsof(atomic_load(x)) == s0, "an atomic starts with the given value");
    perform<T, SET>(x, o); uint64_t last = bitsof(atomic_load(x));
    verdict<T, 1>(&o, s0, last); vs_observe(last); vs_cover("completes");
#ifdef MSVC_ATOMIC
    atomic<T> z{};
#else
    atomic<T> z;
#endif
    vs_check(bitsof(atomic_load(z)) == 0, "an atomic starts at zero");
}
VS_ENTRY(a_one_float) { alone<float, MEM>(any<float>); }
VS_ENTRY(a_one_double) { alone<double, MEM>(any<double>); }
// values whose comparison is not that of their bits
static uint64_t special() { static const float f[] = { 0.0f, -0.0f, __builtin_nanf(""), 1.5f }; return bitsof(f[vs_concretize(vs_range(0, 3, "value"))]); }
static uint64_t speciald() { static const double f[] = { 0.0, -0.0, __builtin_nan(""), 1.5 }; return bitsof(f[vs_concretize(vs_range(0, 3, "value"))]); }
VS_ENTRY(a_special_float) { alone<float, MEM>(special); }
VS_ENTRY(a_special_double) { alone<double, MEM>(speciald); }
VS_ENTRY(a_special_race) { race<float, B(LOAD, XCHG, CAS, CAS), 1, 1>(special); }
VS_ENTRY(a_one_u8) { alone<uint8_t, ALL>(any<uint8_t>); }
VS_ENTRY(a_one_u64) { alone<uint64_t, ALL>(any<uint64_t>); }
VS_ENTRY(a_one_ptr) { alone<uint32_t*, VAL>(any<uint64_t>); }
static uint64_t finite() { uint64_t u = vs_sym(32, "value"); vs_assume((u & 0x7f800000u) != 0x7f800000u); return u; }
static uint64_t finited() { uint64_t u = vs_sym(64, "value"); vs_assume((u & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); return u; }
VS_ENTRY(a_one_addf) { alone<float, 1u << ADD | 1u << SUB>(finite); }
VS_ENTRY(a_one_addd) { alone<double, 1u << ADD | 1u << SUB>(finited); }

// several locations
#ifdef MSVC_ATOMIC
static uint32_t atomic_fetch_or(atomic<uint32_t>& x, uint32_t k) { return k ? atomic_exchange(x, k) : atomic_fetch_sub(x, 0u); }
#endif
static atomic<uint32_t>*X, *Y; static atomic<float>* Z; static uint32_t wk[2], rk[4]; static uint32_t got[4];
static void put(atomic<uint32_t>& x, uint32_t k) { uint32_t e = 0; if (k == 0) atomic_store(x, 1u); else if (k == 1) atomic_exchange(x, 1u); else if (k == 2) atomic_fetch_add(x, 1u); else if (k == 3) atomic_fetch_or(x, 1u); else atomic_compare_exchange(x, e, 1u); }
static uint32_t get(atomic<uint32_t>& x, uint32_t k) { if (k == 0) return atomic_load(x); if (k == 1) return atomic_fetch_add(x, 0u); if (k == 2) { uint32_t e = 7; atomic_compare_exchange(x, e, 9u); return e; } return atomic_fetch_or(x, 0u); }
static uint32_t pick(uint32_t n) { return (uint32_t)vs_concretize(vs_range(0, n - 1, "operation")); }

VS_ENTRY(a_store_buffer)
{
    atomic<uint32_t> x(0u), y(0u); X = &x; Y = &y; shared<uint32_t>(&x); vs_at_reg(&y, 4); for (auto& k : wk) k = pick(5); rk[0] = pick(4); rk[1] = pick(4);
    vs_spawn([](void*) { put(*X, wk[0]); got[0] = get(*Y, rk[0]); }, nullptr); vs_spawn([](void*) { put(*Y, wk[1]); got[1] = get(*X, rk[1]); }, nullptr);
    vs_join_all(); vs_check(got[0] || got[1], "of two threads that each write and then look at the other, one sees the other's write"); vs_observe(got[0] * 2 + got[1]); vs_cover("completes");
}
static uint32_t data; static bool seen;
template<class T> static T peek(T* p) { return __atomic_load_n(p, __ATOMIC_RELAXED); }
template<class T> static void poke(T* p, T v) { __atomic_store_n(p, v, __ATOMIC_RELAXED); }
VS_ENTRY(a_message)
{
    atomic<uint32_t> x(0u); X = &x; data = 0; shared<uint32_t>(&x); vs_at_reg(&data, 4); wk[0] = pick(5); rk[0] = pick(4); seen = false;
    vs_spawn([](void*) { poke(&data, 5u); put(*X, wk[0]); }, nullptr); vs_spawn([](void*) { got[0] = get(*X, rk[0]); if (got[0]) { seen = true; got[1] = peek(&data); } }, nullptr);
    vs_join_all(); if (seen) { vs_check(got[1] == 5, "data written before a store is visible after a load that sees it"); vs_cover("seen"); } vs_observe(seen); vs_cover("completes");
}
VS_ENTRY(a_message_float)
{
    atomic<float> z(0.0f); Z = &z; data = 0; shared<float>(&z); vs_at_reg(&data, 4); wk[0] = pick(5); rk[0] = pick(5); seen = false;
    vs_spawn([](void*) { poke(&data, 5u); float e = 0; if (wk[0] == 0) atomic_store(*Z, 1.0f); else if (wk[0] == 1) atomic_exchange(*Z, 1.0f); else if (wk[0] == 2) atomic_fetch_add(*Z, 1.0f); else if (wk[0] == 3) atomic_fetch_sub(*Z, -1.0f); else atomic_compare_exchange(*Z, e, 1.0f); }, nullptr);
    vs_spawn([](void*) { float v, e = 7; if (rk[0] == 0) v = atomic_load(*Z); else if (rk[0] == 1) v = atomic_fetch_add(*Z, 2.0f); else if (rk[0] == 2) v = atomic_fetch_sub(*Z, 2.0f); else if (rk[0] == 3) v = atomic_exchange(*Z, 4.0f); else { atomic_compare_exchange(*Z, e, 9.0f); v = e; } if (v == 1.0f) { seen = true; got[1] = peek(&data); } }, nullptr);
    vs_join_all(); if (seen) { vs_check(got[1] == 5, "data written before a store is visible after a load that sees it"); vs_cover("seen"); } vs_observe(seen); vs_cover("completes");
}
// a third thread passes on what it saw
VS_ENTRY(a_relay)
{
    atomic<uint32_t> x(0u), y(0u); X = &x; Y = &y; data = 0; shared<uint32_t>(&x); vs_at_reg(&y, 4); vs_at_reg(&data, 4); rk[0] = pick(4); rk[1] = pick(4); wk[0] = pick(2); wk[1] = pick(2); seen = false;
    vs_spawn([](void*) { poke(&data, 5u); put(*X, wk[0]); }, nullptr);
    vs_spawn([](void*) { if (get(*X, rk[0])) put(*Y, wk[1]); }, nullptr);
    vs_spawn([](void*) { if (get(*Y, rk[1])) { seen = true; got[1] = peek(&data); } }, nullptr);
    vs_join_all(); if (seen) { vs_check(got[1] == 5, "data written before a store is visible after a load that sees it, through a third thread"); vs_cover("seen"); } vs_cover("completes");
}
// two readers agree on the order of two independent writes
VS_ENTRY(a_readers)
{
    atomic<uint32_t> x(0u), y(0u); X = &x; Y = &y; shared<uint32_t>(&x); vs_at_reg(&y, 4); wk[0] = wk[1] = 0; for (auto& k : rk) k = 0;
    vs_spawn([](void*) { put(*X, wk[0]); }, nullptr); vs_spawn([](void*) { put(*Y, wk[1]); }, nullptr);
    vs_spawn([](void*) { got[0] = get(*X, rk[0]); got[1] = get(*Y, rk[1]); }, nullptr);
    vs_spawn([](void*) { got[2] = get(*Y, rk[2]); got[3] = get(*X, rk[3]); }, nullptr);
    vs_join_all(); vs_check(!(got[0] && !got[1] && got[2] && !got[3]), "every thread sees the writes in the same order"); vs_cover("completes");
}

#ifdef MSVC_ATOMIC
VS_ENTRY(a_wide_11) { race<wide<3>, VAL - (1u << CAS), 1, 1>(any<uint64_t>); }
VS_ENTRY(a_wide2_11) { race<wide<2>, B(LOAD, STORE, XCHG, LOAD), 1, 1>(any<uint64_t>); }
VS_ENTRY(a_wide2_21) { race<wide<2>, B(LOAD, STORE, LOAD, STORE), 2, 1>(any<uint64_t>); }
VS_ENTRY(a_wide2_111) { vs_preempt_bound(3); race<wide<2>, 1u << XCHG, 1, 1, 1>(any<uint64_t>); }
VS_ENTRY(a_one_wide) { alone<wide<3>, VAL - (1u << CAS)>(any<uint64_t>); }
#endif
