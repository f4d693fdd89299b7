// R01 generators against their published reference algorithms, R02 ranged numbers
#include "vs.h"
#ifdef GCC_FORM // what other compilers than clang see
#undef __clang__
#endif
#include <ce/ce.h>
static uint32_t r32(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
static uint64_t r64(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint32_t ref_crc(uint32_t c, const uint8_t* p, unsigned n) { c = ~c; for (unsigned i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((0u - (c & 1)) & 0x82f63b78u); } return ~c; }
static uint64_t ref_fnv(uint64_t h, const uint8_t* p, unsigned n) { for (unsigned i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001b3ull; return h; }

static uint32_t ref64ss(uint32_t s[2]) { uint32_t s0 = s[0], s1 = s[1], r = r32(s0 * 0x9E3779BBu, 5) * 5; s1 ^= s0; s[0] = r32(s0, 26) ^ s1 ^ (s1 << 9); s[1] = r32(s1, 13); return r; }
static uint64_t ref128pp(uint64_t s[2]) { uint64_t s0 = s[0], s1 = s[1], r = r64(s0 + s1, 17) + s0; s1 ^= s0; s[0] = r64(s0, 49) ^ s1 ^ (s1 << 21); s[1] = r64(s1, 28); return r; }
static uint32_t refpcg(uint64_t& s) { uint64_t o = s; s = o * 6364136223846793005ull + 0xda3e39cb94b95bdbull; uint32_t x = (uint32_t)(((o >> 18u) ^ o) >> 27u), r = (uint32_t)(o >> 59u); return r ? (x >> r) | (x << (32 - r)) : x; }

VS_ENTRY(r_64ss)
{
    ce::xoroshiro64ss g{ vs_any<uint32_t>("a"), vs_any<uint32_t>("b") }; uint32_t s[2] = { g.a, g.b };
    for (int i = 0; i < 2; ++i) { uint32_t v = next(g); vs_observe(v); vs_check(v == ref64ss(s), "xoroshiro64** output"); vs_check(g.a == s[0] && g.b == s[1], "xoroshiro64** state"); }
    { uint32_t v = next32(g); vs_check(v == ref64ss(s) && g.a == s[0] && g.b == s[1], "next32 is one output"); }
    { uint64_t v = next64(g); uint64_t hi = ref64ss(s), lo = ref64ss(s); vs_check(v == (hi << 32 | lo) && g.a == s[0] && g.b == s[1], "next64 is two outputs, first one high"); }
    vs_cover("completes");
}
VS_ENTRY(r_rotate) // the form for compilers without a rotate of their own
{
    uint32_t x = vs_any<uint32_t>("x"); int k = (int)vs_range(1, 31, "count");
    vs_check(ce::detail::rotl32(x, k) == r32(x, k), "rotation"); vs_cover("completes");
}
VS_ENTRY(r_128pp)
{
    ce::xoroshiro128pp g{ vs_any<uint64_t>("a"), vs_any<uint64_t>("b") }; uint64_t s[2] = { g.a, g.b };
    for (int i = 0; i < 2; ++i) { uint64_t v = next(g); vs_observe(v); vs_check(v == ref128pp(s), "xoroshiro128++ output"); vs_check(g.a == s[0] && g.b == s[1], "xoroshiro128++ state"); }
    { uint32_t v = next32(g); vs_check(v == uint32_t(ref128pp(s)) && g.a == s[0] && g.b == s[1], "next32 is the low half of one output"); }
    { uint64_t v = next64(g); vs_check(v == ref128pp(s) && g.a == s[0] && g.b == s[1], "next64 is one output"); }
    vs_cover("completes");
}
VS_ENTRY(r_pcg)
{
    auto g = ce::pcg32_64_t{ vs_any<uint64_t>("state") }; uint64_t s = uint64_t(g);
    for (int i = 0; i < 2; ++i) { uint32_t v = ce::random::next(g); vs_observe(v); vs_check(v == refpcg(s), "PCG32 output"); vs_check(uint64_t(g) == s, "PCG32 state"); }
    vs_cover("completes");
}
VS_ENTRY(r_pcg_seed)
{
    uint64_t n = vs_any<uint64_t>("seed"); auto g = ce::pcg32_64_t{ vs_any<uint64_t>("old") }; seed(g, n);
    uint64_t s = 0; refpcg(s); s += n; refpcg(s); vs_observe(uint64_t(g)); vs_check(uint64_t(g) == s, "PCG32 seeding"); vs_cover("completes");
}
static const unsigned MAXSEED = 9;
VS_ENTRY(r_seed_bytes)
{
    uint8_t d[MAXSEED]; for (auto& x : d) x = vs_any<uint8_t>("seed"); unsigned n = (unsigned)vs_concretize(vs_range(0, MAXSEED, "n"));
    uint8_t* p = static_cast<uint8_t*>(__builtin_malloc(n + !n)); for (unsigned i = 0; i < n; ++i) p[i] = d[i];
    ce::xoroshiro64ss a{ vs_any<uint32_t>("old"), vs_any<uint32_t>("old") }; seed(a, n, p); uint32_t ca = ref_crc(0, d, n / 2), cb = ref_crc(ca, d + n / 2, n - n / 2); vs_observe(a.a); vs_observe(a.b); vs_check(a.a == ca && a.b == cb, "xoroshiro64** seeding");
    ce::xoroshiro128pp b{ vs_any<uint64_t>("old"), vs_any<uint64_t>("old") }; seed(b, n, p); uint64_t f = ref_fnv(0xcbf29ce484222325ull, d, n); vs_check(b.a == f && b.b == ref_fnv(f, d, n), "xoroshiro128++ seeding");
    auto g = ce::pcg32_64_t{ vs_any<uint64_t>("old") }; seed(g, n, p); uint64_t s = 0; refpcg(s); s += f; refpcg(s); vs_check(uint64_t(g) == s, "PCG32 seeding from bytes");
    vs_cover("completes");
}

// a generator whose raw outputs are arbitrary
struct raw { unsigned at; uint32_t out[4]; };
static uint32_t read(raw const& g) { return g.out[g.at & 3]; }
static raw step(raw g) { ++g.at; return g; }
VS_ENTRY(r_ranged)
{
    raw g{ 0, { vs_any<uint32_t>("raw"), 1, 2, 3 } }; uint32_t n = vs_any<uint32_t>("n"), r = g.out[0]; uint32_t v = ce::random::next_ranged(g, n); vs_observe(v);
    vs_check(n == 0 || v < n, "below n"); vs_check(g.at == 1, "the generator advances once"); vs_check(v == uint32_t((uint64_t(n) * r) >> 32), "the high half of n times the raw output"); vs_cover("completes");
}
VS_ENTRY(r_ranged_pcg)
{
    auto g = ce::pcg32_64_t{ vs_any<uint64_t>("state") }, g0 = g; uint64_t s = uint64_t(g); uint32_t n = vs_any<uint32_t>("n"), v = ce::random::next_ranged(g, n); uint32_t r = read(g0); refpcg(s); vs_observe(v);
    vs_check(n == 0 || v < n, "below n"); vs_check(v == uint32_t((uint64_t(n) * r) >> 32) && uint64_t(g) == s, "uses exactly the next output"); vs_cover("completes");
}
// raw outputs that would need more than MAXDRAW draws are outside the bound
template<unsigned MAXDRAW> static void unbiased()
{
    raw g{ 0, { vs_any<uint32_t>("raw"), vs_any<uint32_t>("raw"), vs_any<uint32_t>("raw"), vs_any<uint32_t>("raw") } }; uint32_t n = vs_any<uint32_t>("n");
    // Lemire: a raw output is usable unless the low half of n * raw is below 2^32 mod n; then every result has exactly floor(2^32 / n) usable raw outputs
    uint32_t t = n ? (0u - n) % n : 0; unsigned want = 0; while (want < MAXDRAW && uint32_t(n * g.out[want]) < t) ++want;
    vs_assume(want < MAXDRAW);
    uint32_t o[4] = { g.out[0], g.out[1], g.out[2], g.out[3] };
    uint32_t v = ce::random::next_unbiased(g, n); vs_observe(v); vs_observe(g.at);
    vs_check(n == 0 || v < n, "below n"); vs_check(g.at >= 1, "the generator advances"); vs_check(g.at == want + 1, "draws again exactly for the unusable raw outputs"); vs_check(v == uint32_t((uint64_t(n) * o[want]) >> 32), "the high half of n times the first usable raw output"); vs_cover("completes");
}
VS_ENTRY(r_unbiased_2) { unbiased<2>(); }
VS_ENTRY(r_unbiased_3) { unbiased<3>(); }
