// H01 crc32, H02 fnv1a
#include <ce/ce.h>
#include "vs.h"
static uint32_t ref_crc(uint32_t c, const uint8_t* p, unsigned n, uint32_t poly)
{
    c = ~c; for (unsigned i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((0u - (c & 1)) & poly); } return ~c;
}
template<class W> static void words(W* w, const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; ++i) { W v = 0; for (unsigned k = 0; k < sizeof(W); ++k) v |= W(b[i * sizeof(W) + k]) << (8 * k); w[i] = v; } }
template<uint32_t P, class W, unsigned MAX> static void crc()
{
    using T = ce::crc32_t<P>;
    uint8_t b[MAX * sizeof(W)]; for (auto& x : b) x = vs_any<uint8_t>("data"); uint32_t c = vs_any<uint32_t>("start");
    unsigned n = (unsigned)vs_concretize(vs_range(0, MAX, "n")), m = (unsigned)vs_concretize(vs_range(0, n, "split"));
    W* w = static_cast<W*>(__builtin_malloc(n * sizeof(W) + !n)); words(w, b, n);
    uint32_t whole = uint32_t(ce::crc32(T(c), n, w)); vs_observe(whole);
    vs_check(whole == ref_crc(c, b, n * sizeof(W), P), "the CRC of the bytes");
    vs_check(uint32_t(ce::crc32(ce::crc32(T(c), m, w), n - m, w + m)) == whole, "continuing a CRC equals one call");
    __builtin_free(w); vs_cover("completes");
}
VS_ENTRY(crc_c_8) { crc<0x82f63b78, ce::uint8_t, 8>(); }
VS_ENTRY(crc_c_32) { crc<0x82f63b78, ce::uint32_t, 4>(); }
VS_ENTRY(crc_c_64) { crc<0x82f63b78, ce::uint64_t, 3>(); }
VS_ENTRY(crc_z_8) { crc<0xedb88320, ce::uint8_t, 8>(); }
VS_ENTRY(crc_z_32) { crc<0xedb88320, ce::uint32_t, 4>(); }
VS_ENTRY(crc_z_64) { crc<0xedb88320, ce::uint64_t, 3>(); }
VS_ENTRY(crc_c_8_long) { crc<0x82f63b78, ce::uint8_t, 24>(); }
VS_ENTRY(crc_c_32_long) { crc<0x82f63b78, ce::uint32_t, 12>(); }
VS_ENTRY(crc_c_64_long) { crc<0x82f63b78, ce::uint64_t, 8>(); }
template<unsigned N> static void text() { char s[N]; for (auto& c : s) c = vs_any<char>("s"); uint32_t v = ce::crc32c(s); vs_observe(v); vs_check(v == ref_crc(0, reinterpret_cast<uint8_t*>(s), N - 1, 0x82f63b78), "CRC-32C of the characters before the terminator"); vs_cover("completes"); }
VS_ENTRY(crc_text) { text<1>(); text<2>(); text<6>(); text<17>(); }

template<class H> static H ref_fnv(H h, const uint8_t* p, unsigned n) { H prime = sizeof(H) == 4 ? H(0x01000193u) : H(0x100000001b3ull); for (unsigned i = 0; i < n; ++i) h = (h ^ p[i]) * prime; return h; }
template<class U, unsigned MAX> static void fnv()
{
    uint8_t b[MAX * sizeof(U)]; for (auto& x : b) x = vs_any<uint8_t>("data"); unsigned n = (unsigned)vs_concretize(vs_range(0, MAX, "n")), m = (unsigned)vs_concretize(vs_range(0, n, "split"));
    U* w = static_cast<U*>(__builtin_malloc(n * sizeof(U) + !n)); for (unsigned i = 0; i < n; ++i) { unsigned long long v = 0; for (unsigned k = 0; k < sizeof(U); ++k) v |= (unsigned long long)b[i * sizeof(U) + k] << (8 * k); w[i] = U(v); }
    uint32_t s32 = vs_any<uint32_t>("basis32"); uint64_t s64 = vs_any<uint64_t>("basis64");
    uint32_t a = ce::hash::fnv1a32(n, w, s32); uint64_t c = ce::hash::fnv1a64(n, w, s64); vs_observe(a); vs_observe(c);
    vs_check(a == ref_fnv<uint32_t>(s32, b, n * sizeof(U)), "32-bit FNV-1a of the bytes"); vs_check(c == ref_fnv<uint64_t>(s64, b, n * sizeof(U)), "64-bit FNV-1a of the bytes");
    vs_check(ce::hash::fnv1a32(n, w) == ref_fnv<uint32_t>(0x811c9dc5u, b, n * sizeof(U)), "32-bit FNV-1a from the published basis"); vs_check(ce::hash::fnv1a64(n, w) == ref_fnv<uint64_t>(0xcbf29ce484222325ull, b, n * sizeof(U)), "64-bit FNV-1a from the published basis");
    vs_check(ce::hash::fnv1a32(n - m, w + m, ce::hash::fnv1a32(m, w, s32)) == a, "continuing a 32-bit hash equals one call"); vs_check(ce::hash::fnv1a64(n - m, w + m, ce::hash::fnv1a64(m, w, s64)) == c, "continuing a 64-bit hash equals one call");
    vs_cover("completes");
}
VS_ENTRY(fnv_u8) { fnv<unsigned char, 6>(); }
VS_ENTRY(fnv_s8) { fnv<signed char, 4>(); }
VS_ENTRY(fnv_u16) { fnv<unsigned short, 4>(); }
VS_ENTRY(fnv_s16) { fnv<short, 3>(); }
VS_ENTRY(fnv_u32) { fnv<unsigned int, 3>(); }
VS_ENTRY(fnv_s32) { fnv<int, 3>(); }
VS_ENTRY(fnv_u64) { fnv<unsigned long long, 3>(); }
VS_ENTRY(fnv_s64) { fnv<long long, 2>(); }
VS_ENTRY(fnv_u8_long) { fnv<unsigned char, 16>(); }
VS_ENTRY(fnv_u32_long) { fnv<unsigned int, 8>(); }
VS_ENTRY(fnv_u64_long) { fnv<unsigned long long, 6>(); }
VS_ENTRY(fnv_text)
{
    char s[9]; for (int i = 0; i < 8; ++i) s[i] = vs_any<char>("s"); s[8] = 0; unsigned n = 0; while (s[n]) ++n;
    uint32_t h = ce::hash::fnv1a(s); vs_observe(h); vs_check(h == ref_fnv<uint32_t>(0x811c9dc5u, reinterpret_cast<uint8_t*>(s), n), "FNV-1a of the characters before the terminator"); vs_cover("completes");
}
