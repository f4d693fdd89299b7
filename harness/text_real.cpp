// F01: text of float and double. The shortest conversion itself is the C++ library's; the functions below stand for it.
#include <charconv>
#include <string.h>
#include <ce/ce.h>
#include "to_text.cpp"
#include "vs.h"

// what the conversion writes for a value: any length it may have, text that tells its type, every bit and the length
static unsigned extra;                       // beyond the shortest stand-in text
static unsigned text_of(char* t, char kind, uint64_t bits, unsigned n)
{
    unsigned k = 0; t[k++] = kind;
    for (unsigned i = 0; i < n; i += 4) t[k++] = "0123456789abcdef"[bits >> i & 15];
    for (unsigned i = 0; i < extra; ++i) t[k++] = char('A' + i);
    return k;
}
static std::to_chars_result convert(char* first, char* last, char kind, uint64_t bits, unsigned n)
{
    char t[32]; unsigned k = text_of(t, kind, bits, n);
    if (last - first < k) return { last, std::errc::value_too_large };
    for (unsigned i = 0; i < k; ++i) first[i] = t[i];
    return { first + k, std::errc{} };
}
static uint64_t bits_of(float v) { uint32_t b; memcpy(&b, &v, 4); return b; }
static uint64_t bits_of(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }
namespace std
{
    to_chars_result to_chars(char* first, char* last, float v) noexcept { return convert(first, last, 'f', bits_of(v), 32); }
    to_chars_result to_chars(char* first, char* last, double v) noexcept { return convert(first, last, 'd', bits_of(v), 64); }
    to_chars_result to_chars(char* first, char* last, float v, chars_format f) noexcept { return convert(first, last, char('0' + (int)f), bits_of(v), 32); }
    to_chars_result to_chars(char* first, char* last, double v, chars_format f) noexcept { return convert(first, last, char('5' + (int)f), bits_of(v), 64); }
    to_chars_result to_chars(char* first, char* last, float v, chars_format, int) noexcept { return convert(first, last, 'p', bits_of(v), 32); }
    to_chars_result to_chars(char* first, char* last, double v, chars_format, int) noexcept { return convert(first, last, 'q', bits_of(v), 64); }
}
// a float has up to 15 characters, a double up to 24
static void lengths(bool wide) { extra = (unsigned)vs_concretize(vs_range(0, wide ? 7 : 6, "extra")); }
template<class T> static T any_real(const char* name) { if constexpr (sizeof(T) == 4) { uint32_t b = vs_any<uint32_t>(name); T v; memcpy(&v, &b, 4); return v; } else { uint64_t b = vs_any<uint64_t>(name); T v; memcpy(&v, &b, 8); return v; } }
struct exp_t
{
    char b[200]; unsigned n = 0;
    void s(const char* t) { while (*t) b[n++] = *t++; }
    void real(float v) { n += text_of(b + n, 'f', bits_of(v), 32); }
    void real(double v) { n += text_of(b + n, 'd', bits_of(v), 64); }
    void same(const char* t, unsigned m) const { vs_observe(m); vs_check(m == n, "length of the text"); for (unsigned i = 0; i < n; ++i) { vs_observe((unsigned char)t[i]); vs_check(t[i] == b[i], "the shortest text of exactly the value"); } }
};
template<class T> static void one()
{
    lengths(sizeof(T) == 8); T v = any_real<T>("v"); char b[64]; for (auto& c : b) c = 0x7e; exp_t e; e.real(v);
    char* end = ce::to_text(b, v); e.same(b, (unsigned)(end - b)); for (unsigned i = 32; i < 64; ++i) vs_check(b[i] == 0x7e, "nothing beyond 32 characters"); vs_cover("completes");
}
VS_ENTRY(f_float) { one<float>(); }
VS_ENTRY(f_double) { one<double>(); }
VS_ENTRY(f_many)
{
    lengths(false); float a = any_real<float>("a"), c = any_real<float>("c"); double d = any_real<double>("d"); char b[128]; exp_t e; e.real(a); e.s(" "); e.real(d); e.s("|"); e.real(c);
    e.same(b, (unsigned)(ce::to_text(b, a, ' ', d, '|', c) - b)); vs_cover("completes");
}
template<class T> static void row()
{
    lengths(false); T v[2]{ any_real<T>("v"), any_real<T>("w") }; char b[128]; exp_t e; e.s("["); e.real(v[0]); e.s(", "); e.real(v[1]); e.s("]");
    e.same(b, (unsigned)(ce::to_text(b, v) - b)); vs_cover("completes");
}
VS_ENTRY(f_row_float) { row<float>(); }
VS_ENTRY(f_row_double) { row<double>(); }
VS_ENTRY(f_vec)
{
    lengths(false); ce::vec3<float> v{ any_real<float>("x"), any_real<float>("y"), any_real<float>("z") }; char b[128]; exp_t e; e.s("["); e.real(v.x); e.s(", "); e.real(v.y); e.s(", "); e.real(v.z); e.s("]");
    e.same(b, (unsigned)(ce::to_text(b, v) - b)); vs_cover("completes");
}
VS_ENTRY(f_string)
{
    lengths(true); float a = any_real<float>("a"); double d = any_real<double>("d"); exp_t e; e.s("("); e.real(d); e.s(" "); e.real(a); e.s(")");
    auto s = ce::as_string{ '(', d, " ", a, ')' }; unsigned n = 0; while (s.as[n]) ++n; e.same(s.as, n); vs_cover("completes");
}
