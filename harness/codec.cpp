// B01 base64, B02 lziii
#include <ce/ce.h>
#include <ce/lziii.h>
#include "vs.h"
static int b64(uint8_t c) { int r = -1; for (int i = 0; i < 64; ++i) r = c == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i] ? i : r; return r; }
#if 0
static int b64(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
#endif
VS_ENTRY(b64_count) { uint64_t n = vs_any<uint64_t>("n"); vs_observe(ce::base64::size(n)); vs_check(ce::base64::size(n) == (uint64_t)((unsigned __int128)n * 3 / 4), "whole bytes in n base64 characters"); vs_cover("completes"); }
template<unsigned MAX> static void size()
{
    char s[MAX + 1]; for (unsigned i = 0; i < MAX; ++i) s[i] = vs_any<char>("s"); s[MAX] = vs_any<char>("end"); vs_assume(b64(s[MAX]) < 0);
    unsigned n = 0; while (b64((uint8_t)s[n]) >= 0) ++n;
    auto z = ce::base64::size(s); vs_observe(z); vs_check(z == n * 3 / 4, "whole bytes in the leading run of base64 characters"); vs_cover("completes");
}
VS_ENTRY(b64_size) { size<9>(); }
VS_ENTRY(b64_size_long) { size<40>(); }
template<unsigned MAX> static void dec()
{
    unsigned n = (unsigned)vs_concretize(vs_range(0, MAX, "n")), m = (unsigned)vs_concretize(vs_range(0, n * 3 / 4, "size"));
    char* s = static_cast<char*>(__builtin_malloc(n + !n)); uint8_t* d = static_cast<uint8_t*>(__builtin_malloc(m + !m));
    unsigned v[MAX + 1]; for (unsigned i = 0; i < n; ++i) { unsigned k = (unsigned)vs_range(0, 63, "digit"); v[i] = k; s[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[k]; }
    ce::base64::decode(m, d, s);
    for (unsigned i = 0; i < m; ++i)
    {   // byte i is bits [8i, 8i+8) of the concatenated 6-bit digits
        unsigned r = 0; for (unsigned b = 8 * i; b < 8 * i + 8; ++b) r = r * 2 + (v[b / 6] >> (5 - b % 6) & 1);
        vs_observe(d[i]); vs_check(d[i] == r, "decoded byte");
    }
    vs_cover("completes");
}
VS_ENTRY(b64_decode) { dec<11>(); }
VS_ENTRY(b64_decode_long) { dec<40>(); }
// text that is shorter than the room given to size(): the run ends at padding or any other character
VS_ENTRY(b64_padded)
{
    char s[9]; for (int i = 0; i < 8; ++i) s[i] = vs_any<char>("s"); s[8] = 0; unsigned n = 0; while (n < 8 && b64((uint8_t)s[n]) >= 0) ++n;
    uint8_t d[6]; for (auto& x : d) x = 0xa5; auto z = (unsigned)ce::base64::size(s); vs_concretize(z); vs_check(z == n * 3 / 4, "whole bytes in the leading run of base64 characters");
    ce::base64::decode(z, d, s);
    for (unsigned i = 0; i < 6; ++i) { vs_observe(d[i]); if (i >= z) { vs_check(d[i] == 0xa5, "nothing written beyond the destination"); continue; } unsigned r = 0; for (unsigned b = 8 * i; b < 8 * i + 8; ++b) r = r * 2 + ((unsigned)b64((uint8_t)s[b / 6]) >> (5 - b % 6) & 1); vs_check(d[i] == r, "decoded byte"); }
    vs_cover("completes");
}

//---- lziii: the stream is built from tokens, so that it is well-formed by construction
template<unsigned CAP, unsigned OUT> struct stream
{
    uint8_t in[CAP]; unsigned n = 0, ctl = 0, bit = 8; uint8_t out[OUT]; unsigned m = 0;
    void flag(bool lit) { if (bit == 8) { ctl = n++; in[ctl] = 0; bit = 0; } in[ctl] |= (uint8_t)(lit << bit++); }
    void literal(uint8_t c) { flag(true); in[n++] = c; out[m++] = c; }
    void span(unsigned len, unsigned dist) // len in [3, 18], dist in [1, m]
    {
        flag(false); unsigned off = 4096 - dist; in[n++] = (uint8_t)off; in[n++] = (uint8_t)((len - 3) * 16 + off / 256);
        for (unsigned i = 0; i < len; ++i, ++m) out[m] = out[m - dist];
    }
    void check()
    {
        uint8_t* s = static_cast<uint8_t*>(__builtin_malloc(n + !n)); for (unsigned i = 0; i < n; ++i) s[i] = in[i];
        auto z = ce::lziii::size(n, s); vs_observe(z); vs_check(z == m, "size is the decoded length");
        uint8_t* d = static_cast<uint8_t*>(__builtin_malloc(m + !m)); ce::lziii::decode(m, d, s);
        for (unsigned i = 0; i < m; ++i) { if (i < 40) vs_observe(d[i]); vs_check(d[i] == out[i], "every decoded byte"); }
        vs_cover("completes");
    }
};
// PATTERN: bit i set = token i is a literal
template<unsigned TOKENS, unsigned MAXLEN> static void tokens(unsigned lo, unsigned hi)
{
    stream<3 * TOKENS + 2, TOKENS * 18> s; unsigned k = (unsigned)vs_concretize(vs_range(lo, hi, "tokens"));
    for (unsigned i = 0; i < k; ++i)
        if (s.m == 0 || vs_range(0, 1, "literal")) s.literal(vs_any<uint8_t>("byte")); else { unsigned len = (unsigned)vs_concretize(vs_range(3, MAXLEN, "length")); s.span(len, (unsigned)vs_concretize(vs_range(1, s.m, "distance"))); }
    s.check();
}
VS_ENTRY(lz_two) { tokens<3, 18>(0, 2); }
VS_ENTRY(lz_three) { tokens<3, 6>(3, 3); }
VS_ENTRY(lz_short) { tokens<3, 18>(3, 3); }
VS_ENTRY(lz_four) { tokens<5, 4>(4, 4); }
VS_ENTRY(lz_five) { tokens<5, 4>(5, 5); }
VS_ENTRY(lz_controls)
{   // ten tokens: the second control byte; one span at any place, of any length and reachable distance
    stream<32, 40> s; unsigned at = (unsigned)vs_concretize(vs_range(1, 9, "place"));
    for (unsigned i = 0; i < 10; ++i) if (i == at) { unsigned len = (unsigned)vs_concretize(vs_range(3, 18, "length")); s.span(len, (unsigned)vs_concretize(vs_range(1, s.m, "distance"))); } else s.literal(vs_any<uint8_t>("byte"));
    s.check();
}
VS_ENTRY(lz_mix)
{   // any mix of literals and shortest spans over two control bytes (thorough)
    stream<64, 64> s; for (unsigned i = 0; i < 12; ++i) if (s.m == 0 || vs_range(0, 1, "literal")) s.literal(vs_any<uint8_t>("byte")); else s.span(3, s.m < 2 || vs_range(0, 1, "near") ? 1 : s.m); s.check();
}
static stream<5200, 4400> big;
template<unsigned PRE> static void far_span()
{   // PRE literals, then one span of any reachable distance (every offset encoding) with a symbolic byte among them
    for (unsigned i = 0; i < PRE; ++i) big.literal((uint8_t)(i * 7 + i / 256 * 31));
    unsigned n0 = big.n; (void)n0;
    unsigned dist = (unsigned)vs_range(1, PRE < 4096 ? PRE : 4096, "distance"), len = vs_range(0, 1, "long") ? 18 : 3; vs_assume(dist >= len);
    big.span(len, dist); big.literal(vs_any<uint8_t>("byte")); 
    auto z = ce::lziii::size(big.n, big.in); vs_check(z == big.m, "size is the decoded length");
    static uint8_t d[4400]; ce::lziii::decode(big.m, d, big.in);
    for (unsigned i = PRE; i < big.m; ++i) { vs_observe(d[i]); vs_check(d[i] == big.out[i], "every decoded byte"); }
    vs_cover("completes");
}
VS_ENTRY(lz_far_300) { far_span<300>(); }
// spans reaching back to the far end of the window, past every carry of the offset encoding
VS_ENTRY(lz_far_4100)
{
    static const unsigned dists[] = { 1, 16, 255, 256, 257, 258, 511, 512, 513, 769, 1024, 1025, 1280, 1281, 2048, 2049, 3840, 3841, 4094, 4095, 4096 };
    for (unsigned i = 0; i < 4096; ++i) big.literal((uint8_t)(i * 7 + i / 256 * 31));
    unsigned dist = dists[vs_concretize(vs_range(0, sizeof dists / 4 - 1, "distance"))], len = vs_range(0, 1, "long") ? 18 : 3; uint8_t any = vs_any<uint8_t>("byte");
    // the byte the span starts at is arbitrary
    unsigned at = 4096 - dist; big.in[at + at / 8 + 1] = big.out[at] = any; big.span(len, dist); big.literal(vs_any<uint8_t>("last"));
    auto z = ce::lziii::size(big.n, big.in); vs_check(z == big.m, "size is the decoded length");
    static uint8_t d[4400]; ce::lziii::decode(big.m, d, big.in);
    for (unsigned i = 4096; i < big.m; ++i) { vs_observe(d[i]); vs_check(d[i] == big.out[i], "every decoded byte"); }
    vs_check(d[at] == any, "every decoded byte"); vs_cover("completes");
}
