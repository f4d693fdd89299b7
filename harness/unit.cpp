// F02: the normal of a float vector. The processor's approximate reciprocal square root is replaced by any function within
// its documented relative error of 1.5 / 4096.
#include <immintrin.h>
#include "vs.h"
static int error_;   // in units of 2^-15, from -12 to 12
static float approximate(float m)
{
    uint32_t b; __builtin_memcpy(&b, &m, 4);
    float inf = __builtin_inff(); if ((b << 1 >> 24) == 0) return b >> 31 ? -inf : inf;
    double r = _mm_cvtsd_f64(_mm_sqrt_sd(_mm_setzero_pd(), _mm_set_sd((double)m)));
    return (float)(1.0 / r * (1.0 + error_ * (1.0 / 32768.0)));
}
static __m128 approximate_ss(__m128 v) { v[0] = approximate(v[0]); return v; }
static __m128 approximate_ps(__m128 v) { for (int i = 0; i < 4; ++i) v[i] = approximate(v[i]); return v; }
#define _mm_rsqrt_ss approximate_ss
#define _mm_rsqrt_ps approximate_ps
#include "ce/math.h"
using namespace ce;

static double mag(double v) { return v < 0 ? -v : v; }
static void unit(float x, float y, float z)
{
    vec3<float> v{ x, y, z }, n = normal(v); double a = n.x, b = n.y, c = n.z, s = a * a + b * b + c * c;
    vs_check((s > 1 - 0.000735) & (s < 1 + 0.000735), "length one within the error of the reciprocal square root");
    double X = x, Y = y, Z = z, t = 0.000001 * (mag(X) + mag(Y) + mag(Z));
    vs_check((mag(a * Y - b * X) <= t) & (mag(b * Z - c * Y) <= t) & (mag(c * X - a * Z) <= t), "the direction of the vector");
    vs_check(a * X + b * Y + c * Z > 0, "not the opposite direction");
    vs_cover("completes");
}
static void any_error(unsigned bits_) { error_ = (int)(vs_sym(bits_, "error") * 24 / ((1u << bits_) - 1)) - 12; }
static float power(int e) { uint32_t b = (uint32_t)(e + 127) << 23; float f; __builtin_memcpy(&f, &b, 4); return f; }
static float small(const char* name) { return (float)((int)vs_sym(4, name) - 8); }
// every direction on a small grid, not the zero vector
template<int E> static void grid() { any_error(3); float x = small("x"), y = small("y"), z = small("z"); vs_assume((x != 0) | (y != 0) | (z != 0)); float p = power(E); unit(x * p, y * p, z * p); }
VS_ENTRY(n_grid) { grid<0>(); }
VS_ENTRY(n_grid_tiny) { grid<-60>(); }
VS_ENTRY(n_grid_huge) { grid<59>(); }
// one component of any sign and nearly any size against two fixed ones
template<int AT> static void scale()
{
    any_error(3); uint32_t b = (uint32_t)vs_sym(1, "sign") << 31 | (uint32_t)(vs_range(0, 125, "exponent") + 64) << 23 | (uint32_t)vs_sym(4, "mantissa") << 19; float f; __builtin_memcpy(&f, &b, 4);
    float v[3] = { 3, -5, 7 }; v[AT] = f; unit(v[0], v[1], v[2]);
}
VS_ENTRY(n_scale_x) { scale<0>(); }
VS_ENTRY(n_scale_y) { scale<1>(); }
VS_ENTRY(n_scale_z) { scale<2>(); }
// along an axis, any size
template<int AT> static void axis()
{
    any_error(3); uint32_t b = (uint32_t)vs_sym(1, "sign") << 31 | (uint32_t)(vs_range(0, 125, "exponent") + 64) << 23 | (uint32_t)vs_sym(4, "mantissa") << 19 | 0x7ffff; float f; __builtin_memcpy(&f, &b, 4);
    float v[3] = { 0, 0, 0 }; v[AT] = f; unit(v[0], v[1], v[2]);
}
VS_ENTRY(n_axis_x) { axis<0>(); }
VS_ENTRY(n_axis_y) { axis<1>(); }
VS_ENTRY(n_axis_z) { axis<2>(); }
// low bits of the mantissas
VS_ENTRY(n_fine) { any_error(3); float x = 1.0f + (float)vs_sym(4, "x") * 0x1p-23f, y = 0.75f + (float)vs_sym(4, "y") * 0x1p-24f, z = -1.5f - (float)vs_sym(4, "z") * 0x1p-23f; unit(x, y, z); }
