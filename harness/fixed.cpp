// G07: integer square root and hypotenuse; G06: fixed-point trigonometry (lib/h/ce/math.h)
#include "vs.h"
#include "ce/math.h"
using namespace ce;
typedef unsigned __int128 u128;

// v is any of 65536 numbers near the square of any of 256 numbers near k, on both sides of where rounding changes
static void root(int64_t v, int32_t r)
{
    uint64_t u = (uint64_t)v, R = (uint64_t)(int64_t)r;
    vs_check(r >= 0, "a root is not negative");
    vs_check((R == 0) | ((R - 1) * (R - 1) < u), "the root is less than one too large");
    vs_check((R + 1) * (R + 1) > u, "the root is less than one too small");
    bool near = ((R == 0) | (4 * u > (2 * R - 1) * (2 * R - 1))) & (4 * u < (2 * R + 1) * (2 * R + 1));
    vs_check(near | (u >= 1ull << 50), "the root is the nearest integer");
    vs_observe(R);
}
static int64_t around(int64_t k0, int64_t step)
{
    int64_t k = k0 + step * (int64_t)vs_sym(8, "k"); uint64_t m = vs_range(0, 7, "side"); int64_t d = (int64_t)vs_sym(4, "d");
    static const int8_t half[8] = { 0, 0, 2, 2, -2, -2, 4, 1 }, sign[8] = { -1, 1, -1, 1, 1, -1, -1, 1 };
    int64_t v = k * k + half[m] * k / 2 + sign[m] * d; return v < 0 ? -v : v;
}
#define ROOT(NAME, K, STEP) VS_ENTRY(NAME) { int64_t v = around(K, STEP); root(v, isqrt(v)); }
VS_ENTRY(q_root_first) { int64_t v = (int64_t)(vs_sym(8, "hi") << 8 | vs_sym(8, "lo")); root(v, isqrt(v)); vs_check((v != 0) | (isqrt(v) == 0), "the root of zero"); }
VS_ENTRY(q_root_low) { int64_t v = (int64_t)(vs_sym(8, "hi") << 12 | vs_sym(8, "lo")); root(v, isqrt(v)); }
VS_ENTRY(q_root_wide) { int64_t v = (int64_t)((vs_sym(8, "hi") + 1) << 41 | vs_sym(8, "lo") << 17); root(v, isqrt(v)); }
VS_ENTRY(q_root_scales) { uint64_t e = vs_range(0, 61, "scale"); int64_t v = (int64_t)(1ull << e); v += (int64_t)vs_sym(8, "d") - 128; v = v < 0 ? -v : v; root(v, isqrt(v)); }
ROOT(q_root_300, 256, 1) ROOT(q_root_46000, 46340 - 128, 1) ROOT(q_root_16, 65536 - 128, 1) ROOT(q_root_20, (1 << 20) - 128, 1) ROOT(q_root_24, (1 << 24) - 128, 1) ROOT(q_root_25, (1 << 25) - 256, 1) ROOT(q_root_25b, (1 << 25) - 2, 1)
ROOT(q_root_53, 94906265 - 128, 1) ROOT(q_root_30, (1 << 30) - 128, 1) ROOT(q_root_mid, 1 << 16, 123457)
VS_ENTRY(q_root_top)
{   // up to the last root that fits
    int64_t k = 0x7fffffff - (int64_t)vs_sym(8, "k"); int64_t d = (int64_t)vs_sym(8, "d"); int64_t v = k * k + (k > 0x7fffff00 && d > 127 ? -d : d * 1024); if (v > 0x7fffffffll * 0x7fffffffll) v = 0x7fffffffll * 0x7fffffffll; root(v, isqrt(v));
}
VS_ENTRY(q_root_squares) { int64_t k = (int64_t)(vs_sym(8, "hi") << 23 | vs_sym(8, "lo") << 8 | 0xff); uint64_t R = (uint64_t)(int64_t)isqrt(k * k); vs_check(R * R == (uint64_t)(k * k), "the root of a square is exact"); }

static void hyp(int32_t x, int32_t y) { root((int64_t)x * x + (int64_t)y * y, hypot(x, y)); }
#define HYP(NAME, X, Y, SX, SY) VS_ENTRY(NAME) { int32_t x = (int32_t)((X) + (SX) * (int64_t)vs_sym(8, "x")), y = (int32_t)((Y) + (SY) * (int64_t)vs_sym(8, "y")); hyp(x, y); }
HYP(q_hyp_small, -128, -128, 1, 1) HYP(q_hyp_axis, 2147483647 - 255, 0, 1, 1) HYP(q_hyp_axis_neg, -2147483647, -10, 1, 1) HYP(q_hyp_axis_y, -100, -2147483647, 1, 1) HYP(q_hyp_46340, 46340 - 128, -46340 - 128, 1, 1) HYP(q_hyp_32768, 32768 - 128, 32768 - 128, 1, 1)
HYP(q_hyp_diagonal, 1518500249 - 255, -1518500249, 1, 1) HYP(q_hyp_mid, -1500000000, -1500000000, 11718750, 11718750) HYP(q_hyp_25, (1 << 25) - 128, 3, 1, 255) HYP(q_hyp_16, 65536 - 128, -65536 - 128, 1, 1)

//---- G06
#include "trig.inc"
typedef __int128 i128;
// every angle A * 2^a + B * 2^b + const, against cos and sin of both parts
template<class TA, class TB, int64_t R, int64_t E> static void turn()
{
    uint64_t a = vs_sym(8, "a"), b = vs_sym(8, "b"); int32_t t = (int32_t)((a << TA::shift) + TA::off + (b << TB::shift) + TB::off);
    vec2<int32_t> p = to_cartesian((int32_t)R, t);
    i128 c = (i128)TA::c[a] * TB::c[b] - (i128)TA::s[a] * TB::s[b], s = (i128)TA::s[a] * TB::c[b] + (i128)TA::c[a] * TB::s[b], one = (i128)1 << 88;
    i128 ex = (i128)p.x * one - c * R, ey = (i128)p.y * one - s * R;
    vs_check((ex <= E * one) & (ex >= -E * one), "the cosine is within a few units"); vs_check((ey <= E * one) & (ey >= -E * one), "the sine is within a few units");
    vs_check(cos_2pi((int32_t)R, t) == p.x, "cos_2pi is the first coordinate"); vs_check(sin_2pi((int32_t)R, t) == p.y, "sin_2pi is the second coordinate");
    vs_observe((uint32_t)p.x); vs_observe((uint32_t)p.y);
}
#define TURN(NAME, A, B, R, E) VS_ENTRY(NAME) { turn<tr_##A, tr_##B, R, E>(); }
TURN(t_top_mid_max, top, mid, 0x7ffffff0, 3) TURN(t_top_mid_neg, top, mid, -0x7ffffff0, 3) TURN(t_top_mid_k, top, mid, 1000, 2) TURN(t_top_low_max, top_b, low, 0x7ffffff0, 3) TURN(t_top_low_m, top_b, low, 1000000, 2) TURN(t_top_unit_max, top_c, unit, 0x7ffffff0, 3) TURN(t_top_unit_m, top_c, unit, -12345678, 2)
TURN(t_mid_low_max, mid_b, low, 0x7ffffff0, 3) TURN(t_mid_low_g, mid_c, low, -1000000007, 3) TURN(t_mid_unit_max, mid_b, unit, 0x7ffffff0, 3) TURN(t_small_max, small, unit, 0x7ffffff0, 3) TURN(t_small_m, small, unit, 16777216, 2) TURN(t_near90_max, near90, unit, 0x7ffffff0, 3) TURN(t_near90_k, near90, unit, -30000, 2) TURN(t_near45_max, near45, unit, 0x7ffffff0, 3) TURN(t_mid_c_max, mid_c, unit, 0x7ffffff0, 3)
// every radius: the length is kept (any angle out of 256, any radius out of 256 near some)
template<class TA, int64_t R0, int64_t STEP, int64_t E> static void spin()
{
    uint64_t a = vs_sym(8, "a"); int64_t r = R0 + STEP * (int64_t)vs_sym(8, "r"); vec2<int32_t> p = to_cartesian((int32_t)r, (int32_t)((a << TA::shift) + TA::off)); i128 one = (i128)1 << 44;
    i128 ex = (i128)p.x * one - (i128)TA::c[a] * r, ey = (i128)p.y * one - (i128)TA::s[a] * r;
    vs_check((ex <= E * one) & (ex >= -E * one), "the cosine is within a few units"); vs_check((ey <= E * one) & (ey >= -E * one), "the sine is within a few units"); vs_observe((uint32_t)p.x); vs_observe((uint32_t)p.y);
}
#define SPIN(NAME, A, R, S, E) VS_ENTRY(NAME) { spin<tr_##A, R, S, E>(); }
SPIN(s_small, top, -128, 1, 2) SPIN(s_wide, top_b, -2147483632, 16843000, 3) SPIN(s_top, top_c, 0x7ffffff0 - 255, 1, 3) SPIN(s_low, low, 0x7ffffff0 - 255, 1, 3) SPIN(s_mid, mid_b, -65536, 511, 2)
// quarter turns, for any radius and angle
VS_ENTRY(t_quarter)
{
    int32_t r = (int32_t)vs_sym(32, "r"), t = (int32_t)vs_sym(32, "t"); vec2<int32_t> p = to_cartesian(r, t), q = to_cartesian(r, (int32_t)((uint32_t)t + (uint32_t)angle::_90));
    vs_check((q.x == (int32_t)(0u - (uint32_t)p.y)) & (q.y == p.x), "a quarter turn further is a quarter turn of the result"); vs_cover("completes");
}
VS_ENTRY(t_turns)
{
    int32_t r = (int32_t)vs_sym(32, "r"), t = (int32_t)vs_sym(32, "t"); vec2<int32_t> p = to_cartesian(r, t), q = to_cartesian(r, (int32_t)((uint32_t)t + (uint32_t)angle::_360));
    vs_check((q.x == p.x) & (q.y == p.y), "a full turn changes nothing"); vs_cover("completes");
}
static void polar(int32_t x, int32_t y, int64_t EM, int64_t EP)
{
    vec2<int32_t> p = to_polar(x, y); vs_check((polar_mag(x, y) == p.x) & (polar_ang(x, y) == p.y) & (atan2_2pi(y, x) == p.y), "the single results are those of the pair");
    int64_t g = p.y; vs_check(g * g <= (0x40000000ll + 2) * (0x40000000ll + 2), "the angle is at most half a turn either way");
    i128 d = (i128)x * x + (i128)y * y, m = p.x, lo = m > EM ? m - EM : 0, hi = m + EM;
    vs_check((lo * lo <= d) & (hi * hi >= d), "the magnitude is within a few units");
    vec2<int32_t> q = to_cartesian(p.x, p.y); int64_t ex = (int64_t)q.x - x, ey = (int64_t)q.y - y;
    vs_check((ex * (i128)ex <= EP * EP) & (ey * (i128)ey <= EP * EP), "turning the magnitude by the angle gives the vector back within a few units");
    vs_observe((uint32_t)p.x); vs_observe((uint32_t)p.y);
}
#define POLAR(NAME, X, Y, SX, SY, EM, EP) VS_ENTRY(NAME) { int32_t x = (int32_t)((X) + (SX) * (int64_t)vs_sym(8, "x")), y = (int32_t)((Y) + (SY) * (int64_t)vs_sym(8, "y")); polar(x, y, EM, EP); }
POLAR(v_small, -128, -128, 1, 1, 2, 2) POLAR(v_medium, -12800, -12800, 101, 101, 2, 2) POLAR(v_million, -1000000, -1000000, 7919, 7907, 2, 2) POLAR(v_wide, -1518500000, -1518500000, 11909804, 11909803, 2, 8)
POLAR(v_axis_x, 2147483640 - 255, -128, 1, 1, 2, 8) POLAR(v_axis_neg, -2147483640, -128, 1, 1, 2, 8) POLAR(v_axis_y, -128, -2147483640, 1, 1, 2, 8) POLAR(v_axis_up, -128, 2147483640 - 255, 1, 1, 2, 8) POLAR(v_diagonal, 1518500249 - 260, -1518500249, 1, 1, 2, 8) POLAR(v_flat, -1000000000, -128, 7843137, 1, 2, 8)
