// to_text(char[], integer) for the ten integer types, one harness entry per (type, sign, decimal length).
#include <ce/ce.h>
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#include "vs.h"

static constexpr uint64_t p10(unsigned k) { uint64_t r = 1; while (k--) r *= 10; return r; }

template<class T, unsigned D, bool NEG> static void cls()
{
    constexpr bool sg = T(-1) < T(0);
    constexpr uint64_t top = !sg ? (uint64_t)T(-1) : (uint64_t(1) << (sizeof(T) * 8 - 1)) - (NEG ? 0 : 1);
    constexpr uint64_t lo = D == 1 ? (NEG ? 1 : 0) : p10(D - 1);
    constexpr uint64_t hi0 = D == 20 ? ~uint64_t(0) : p10(D) - 1, hi = hi0 > top ? top : hi0;
    static_assert(lo <= hi, "empty class");
    uint64_t mag = vs_range(lo, hi, "magnitude");
    T v = NEG ? T(0 - mag) : T(mag);
    // exactly as much room as measure<T> promises: one byte more is an out-of-bounds write
    constexpr unsigned room = ce::measure<T>::value;
    static_assert(D + NEG <= 20, "");
    struct { char before[8]; char b[room]; char after[8]; } s;
    for (unsigned i = 0; i < 8; ++i) s.before[i] = s.after[i] = 0x7f;
    char* e = ce::to_text(s.b, v);
    unsigned n = (unsigned)(e - s.b);
    vs_observe(n);
    vs_check(n == D + NEG, "length is the number of decimal digits plus the sign");
    vs_check(n <= room, "no longer than measure<T>");
    for (unsigned i = 0; i < 8; ++i) vs_check(s.before[i] == 0x7f && s.after[i] == 0x7f, "nothing written outside the room measure<T> promises");
    for (unsigned i = 0; i < D + NEG; ++i) vs_observe((unsigned char)s.b[i]);
    if (NEG) vs_check(s.b[0] == '-', "minus sign");
    const char* d = s.b + NEG;
    for (unsigned k = 0; k < D; ++k) vs_check(d[k] >= '0' && d[k] <= '9', "decimal digit");
    if (D > 1) vs_check(d[0] != '0', "no leading zero");
    // positional notation: given that every character is a digit, the digits denote the magnitude iff the weighted
    // sum of each block of eight (from the right) is the corresponding base-10^8 digit of the magnitude
    uint64_t m = mag;
    for (unsigned end = D; end; )
    {
        unsigned beg = end > 8 ? end - 8 : 0; uint64_t sum = 0, p = 1;
        for (unsigned k = end; k-- > beg; p *= 10) sum += p * (unsigned)(d[k] - '0');
        vs_check(sum == (beg ? m % 100000000u : m), "the digits denote the value");
        m /= 100000000u; end = beg;
    }
    vs_cover("class completes");
}
#define P(N, T, D) VS_ENTRY(text_##N##_p##D) { cls<T, D, false>(); }
#define M(N, T, D) VS_ENTRY(text_##N##_m##D) { cls<T, D, true>(); }
#define D3(X, N, T) X(N, T, 1) X(N, T, 2) X(N, T, 3)
#define D5(X, N, T) D3(X, N, T) X(N, T, 4) X(N, T, 5)
#define D10(X, N, T) D5(X, N, T) X(N, T, 6) X(N, T, 7) X(N, T, 8) X(N, T, 9) X(N, T, 10)
#define D19(X, N, T) D10(X, N, T) X(N, T, 11) X(N, T, 12) X(N, T, 13) X(N, T, 14) X(N, T, 15) X(N, T, 16) X(N, T, 17) X(N, T, 18) X(N, T, 19)
D3(P, u8, unsigned char) D5(P, u16, unsigned short) D10(P, u32, unsigned int) D19(P, ul, unsigned long) P(ul, unsigned long, 20) D19(P, ull, unsigned long long) P(ull, unsigned long long, 20)
D3(P, s8, signed char) D3(M, s8, signed char) D5(P, s16, short) D5(M, s16, short) D10(P, s32, int) D10(M, s32, int)
D19(P, sl, long) D19(M, sl, long) D19(P, sll, long long) D19(M, sll, long long)
