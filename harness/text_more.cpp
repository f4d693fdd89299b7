// T02 (as_string) and T03 (text of composite values)
#include <ce/ce.h>
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#include "vs.h"

// expected text, built independently
struct exp_t
{
    char b[1200]; unsigned n = 0;
    void c(char x) { b[n++] = x; }
    void s(const char* t) { while (*t) c(*t++); }
    void sn(const char* t, unsigned m) { for (unsigned i = 0; i < m && t[i]; ++i) c(t[i]); }
    void u(uint64_t v) { char t[24]; unsigned k = 0; do t[k++] = char('0' + v % 10), v /= 10; while (v); while (k) c(t[--k]); }
    void i(int64_t v) { if (v < 0) c('-'), u(0 - (uint64_t)v); else u((uint64_t)v); }
    template<class T> void real(T v) { n = (unsigned)(ce::to_text(b + n, v) - b); } // scalar integer text: decided by T01
};
struct out_t { char b[160]; out_t() { for (auto& c : b) c = 0x7e; } };

static void same(const char* b, unsigned n, exp_t const& e, unsigned cap)
{
    vs_observe(n); vs_check(n == e.n, "length of the text");
    for (unsigned i = 0; i < e.n; ++i) { vs_observe((unsigned char)b[i]); vs_check(b[i] == e.b[i], "every character of the text"); }
    for (unsigned i = e.n; i < cap; ++i) vs_check(b[i] == 0x7e, "nothing written beyond the returned position");
}
static void done(out_t& o, char* end, exp_t const& e) { same(o.b, (unsigned)(end - o.b), e, 160); vs_cover("completes"); }

VS_ENTRY(t3_bool) { out_t o; exp_t e; bool v = vs_any<bool>("v"); e.s("#<"); e.c(v ? 'T' : 'F'); e.s(">"); done(o, ce::to_text(o.b, v), e); }
VS_ENTRY(t3_char) { out_t o; exp_t e; char v = vs_any<char>("v"); e.c(v); done(o, ce::to_text(o.b, v), e); }
enum class e8 : unsigned char { a }; enum class i8 : signed char { a }; enum class e32 : int { a }; enum class e64 : unsigned long long { a }; enum plain { pa, pb, pc = 200 };
template<class T, class U> static void en() { out_t o; exp_t e; U v = vs_any<U>("v"); e.s("#<enum "); e.real(v); e.s(">"); done(o, ce::to_text(o.b, T(v)), e); }
VS_ENTRY(t3_enum_u8) { en<e8, unsigned char>(); }
VS_ENTRY(t3_enum_i8) { out_t o; exp_t e; signed char v = vs_any<signed char>("v"); e.s("#<enum "); e.i(v); e.s(">"); done(o, ce::to_text(o.b, i8(v)), e); }
VS_ENTRY(t3_enum_i32) { en<e32, int>(); }
VS_ENTRY(t3_enum_u64) { en<e64, unsigned long long>(); }
VS_ENTRY(t3_enum_plain) { out_t o; exp_t e; unsigned v = (unsigned)vs_range(0, 255, "v"); e.s("#<enum "); e.u(v); e.s(">"); done(o, ce::to_text(o.b, plain(v)), e); }
VS_ENTRY(t3_nullptr) { out_t o; exp_t e; e.s("#<nil>"); done(o, ce::to_text(o.b, nullptr), e); }
VS_ENTRY(t3_ptr)
{
    out_t o; exp_t e; uint64_t a = vs_any<uint64_t>("address"); int* p = reinterpret_cast<int*>(a);
    if (a == 0) e.s("#<nil>"); else { e.s("#<ptr "); e.real((unsigned long)a); e.s(">"); }
    done(o, ce::to_text(o.b, p), e);
}
VS_ENTRY(t3_ref) { struct mine { int x; }; out_t o; exp_t e; mine m{ 1 }; e.s("#<ref "); e.real((unsigned long)&m); e.s(">"); unsigned n = (unsigned)(ce::to_text(o.b, m) - o.b); vs_check(n == e.n, "length of the text"); for (unsigned i = 0; i < n; ++i) vs_check(o.b[i] == e.b[i], "every character of the text"); vs_cover("completes"); }
VS_ENTRY(t3_str)
{
    out_t o; exp_t e; char s[7]; for (int i = 0; i < 6; ++i) s[i] = vs_any<char>("s"); s[6] = 0;
    bool nul = vs_any<bool>("null"); const char* p = nul ? nullptr : s; if (nul) e.s("#<nil>"); else e.s(s);
    done(o, ce::to_text(o.b, p), e);
}
VS_ENTRY(t3_mstr) { out_t o; exp_t e; char s[5]; for (int i = 0; i < 4; ++i) s[i] = vs_any<char>("s"); s[4] = 0; char* p = s; e.s(s); done(o, ce::to_text(o.b, p), e); }
VS_ENTRY(t3_chars) { out_t o; exp_t e; char s[6]; for (auto& c : s) c = vs_any<char>("s"); e.sn(s, 6); done(o, ce::to_text(o.b, s), e); }
template<unsigned N> static void arr()
{
    out_t o; exp_t e; signed char v[N]; for (auto& x : v) x = vs_any<signed char>("v");
    e.c('['); for (unsigned i = 0; i < N; ++i) { if (i) e.s(", "); e.real(v[i]); } e.c(']');
    done(o, ce::to_text(o.b, v), e);
}
VS_ENTRY(t3_arr1) { arr<1>(); }
VS_ENTRY(t3_arr2) { arr<2>(); }
VS_ENTRY(t3_arr3) { arr<3>(); }
template<unsigned N, class T> static void vec()
{
    out_t o; exp_t e; ce::vec<N, T> v; T* q = reinterpret_cast<T*>(&v); for (unsigned i = 0; i < N; ++i) q[i] = vs_any<T>("v");
    e.c('['); for (unsigned i = 0; i < N; ++i) { if (i) e.s(", "); e.real(q[i]); } e.c(']');
    done(o, ce::to_text(o.b, v), e);
}
VS_ENTRY(t3_vec2) { vec<2, unsigned char>(); }
VS_ENTRY(t3_vec3) { vec<3, unsigned char>(); }
VS_ENTRY(t3_vec4) { vec<4, unsigned char>(); }
VS_ENTRY(t3_vec2_i32) { vec<2, int>(); }
VS_ENTRY(t3_nested)
{
    out_t o; exp_t e; unsigned char v[2][2]; for (auto& r : v) for (auto& x : r) x = vs_any<unsigned char>("v");
    e.c('['); for (int i = 0; i < 2; ++i) { if (i) e.s(", "); e.c('['); e.real(v[i][0]); e.s(", "); e.real(v[i][1]); e.c(']'); } e.c(']');
    done(o, ce::to_text(o.b, v), e);
}
VS_ENTRY(t3_boolarr) { out_t o; exp_t e; bool v[3]; for (auto& x : v) x = vs_any<bool>("v"); e.c('['); for (int i = 0; i < 3; ++i) { if (i) e.s(", "); e.s(v[i] ? "#<T>" : "#<F>"); } e.c(']'); done(o, ce::to_text(o.b, v), e); }
VS_ENTRY(t3_many)
{
    out_t o; exp_t e; unsigned char a = vs_any<unsigned char>("a"); char c = vs_any<char>("c"); short b = vs_any<short>("b"); char s[4]; for (int i = 0; i < 3; ++i) s[i] = vs_any<char>("s"); s[3] = 0; const char* p = s;
    e.real(a); e.c(c); e.real(b); e.s(s); e.s("#<T>");
    done(o, ce::to_text(o.b, a, c, b, p, true), e);
}

//---- T02
template<class S> static void holds(S const& s, exp_t const& e)
{
    vs_observe(e.n); vs_check(e.n < sizeof(s.as), "the text and its terminator fit");
    for (unsigned i = 0; i < e.n; ++i) { vs_observe((unsigned char)s.as[i]); vs_check(s.as[i] == e.b[i], "every character of the text"); }
    vs_check(s.as[e.n] == 0, "terminated right after the text"); vs_cover("completes");
}
VS_ENTRY(t2_array_first) { char a[5]; for (auto& c : a) c = vs_any<char>("a"); signed char v = vs_any<signed char>("v"); exp_t e; e.sn(a, 5); e.i(v); holds(ce::as_string{ a, v }, e); }
VS_ENTRY(t2_array_last) { char a[4]; for (auto& c : a) c = vs_any<char>("a"); unsigned char v = vs_any<unsigned char>("v"); exp_t e; e.u(v); e.sn(a, 4); holds(ce::as_string{ v, a }, e); }
VS_ENTRY(t2_array_mid) { char a[3], b[2]; for (auto& c : a) c = vs_any<char>("a"); for (auto& c : b) c = vs_any<char>("b"); exp_t e; e.c('['); e.sn(a, 3); e.c('|'); e.sn(b, 2); e.c(']'); holds(ce::as_string{ '[', a, '|', b, ']' }, e); }
VS_ENTRY(t2_ptr) { char s[7]; for (int i = 0; i < 6; ++i) s[i] = vs_any<char>("s"); s[6] = 0; const char* p = s; exp_t e; e.c('<'); e.s(s); e.c('>'); holds(ce::as_string{ '<', p, '>' }, e); }
VS_ENTRY(t2_mptr) { char s[5]; for (int i = 0; i < 4; ++i) s[i] = vs_any<char>("s"); s[4] = 0; char* p = s; exp_t e; e.s(s); e.c('>'); holds(ce::as_string{ p, '>' }, e); }
VS_ENTRY(t2_long)
{
    char s[1034]; for (auto& c : s) c = 'Q'; unsigned at = (unsigned)vs_concretize(vs_range(1020, 1032, "length")); s[at] = 0; char x = vs_any<char>("x"); vs_assume(x != 0); s[1019] = x; s[1033] = 0; const char* p = s;
    exp_t e; e.c('['); e.sn(s, at < 1024 ? at : 1024); e.c(']'); holds(ce::as_string{ '[', p, ']' }, e);
}
VS_ENTRY(t2_long_two)
{
    char s[1040]; for (auto& c : s) c = 'R'; s[1039] = 0; const char* p = s; unsigned char v = vs_any<unsigned char>("v");
    exp_t e; e.sn(s, 1024); e.u(v); holds(ce::as_string{ p, v }, e);
}
VS_ENTRY(t2_extremes)
{   // every integer type at its longest text at once: the room reserved is exactly enough
    auto a = (long long)vs_srange(INT64_MIN, -1000000000000000000, "a"); auto b = (unsigned long long)vs_range(10000000000000000000ull, ~0ull, "b"); int c = (int)vs_srange(INT32_MIN, -1000000000, "c"); unsigned d = (unsigned)vs_range(1000000000, ~0u, "d");
    short f = (short)vs_srange(-32768, -10000, "f"); unsigned short g = (unsigned short)vs_range(10000, 65535, "g"); signed char h = (signed char)vs_srange(-128, -100, "h"); unsigned char i = (unsigned char)vs_range(100, 255, "i"); char j = vs_any<char>("j");
    long k = (long)vs_srange(INT64_MIN, -1000000000000000000, "k"); unsigned long l = vs_range(10000000000000000000ull, ~0ull, "l");
    auto s = ce::as_string{ a, b, c, d, f, g, h, i, j, k, l };
    exp_t e; e.real(a); e.real(b); e.real(c); e.real(d); e.real(f); e.real(g); e.real(h); e.real(i); e.c(j); e.real(k); e.real(l);
    vs_check(e.n == sizeof(s.as) - 1, "the room reserved is exactly enough for the longest texts"); holds(s, e);
}
VS_ENTRY(t2_int) { int v = vs_any<int>("v"); exp_t e; e.real(v); holds(ce::as_string{ v }, e); }
VS_ENTRY(t2_u64) { unsigned long long v = vs_any<unsigned long long>("v"); exp_t e; e.real(v); holds(ce::as_string{ v }, e); }
VS_ENTRY(t2_mixed) { bool b = vs_any<bool>("b"); short v = vs_any<short>("v"); char c = vs_any<char>("c"); ce::vec2<signed char> w{ vs_any<signed char>("x"), 5 }; exp_t e; e.s(b ? "#<T>" : "#<F>"); e.real(v); e.c(c); e.c('['); e.real(w.x); e.s(", 5]"); holds(ce::as_string{ b, v, c, w }, e); }
VS_ENTRY(t2_text_alone)
{
    char s[6]; for (int i = 0; i < 5; ++i) s[i] = vs_any<char>("s"); s[5] = 0; const char* p = s;
    vs_check(ce::as_string{ p }.as == p, "a text alone is itself"); vs_check(ce::as_string{ "abc" }.as[3] == 0, "a literal alone is itself"); vs_observe(1); vs_cover("completes");
}
VS_ENTRY(t2_row_long)
{   // arrays whose text is longer than any scalar's
    signed char v[220]; for (auto& x : v) x = -100; unsigned at = (unsigned)vs_concretize(vs_range(0, 2, "at") * 109); v[at] = vs_any<signed char>("v"); unsigned char w = vs_any<unsigned char>("w");
    static exp_t a; a.n = 0; static char text[1400]; unsigned n = 0; text[n++] = '['; for (unsigned i = 0; i < 220; ++i) { if (i) text[n++] = ',', text[n++] = ' '; n = (unsigned)(ce::to_text(text + n, v[i]) - text); } text[n++] = ']'; n = (unsigned)(ce::to_text(text + n, w) - text);
    auto s = ce::as_string{ v, w }; vs_check(n < sizeof(s.as), "the text and its terminator fit"); for (unsigned i = 0; i < n; ++i) vs_check(s.as[i] == text[i], "every character of the text"); vs_check(s.as[n] == 0, "terminated right after the text"); vs_observe(n); vs_cover("completes");
}
VS_ENTRY(t2_row) { int v[3]; for (auto& x : v) x = vs_any<int>("v"); exp_t e; e.c('['); for (int i = 0; i < 3; ++i) { if (i) e.s(", "); e.real(v[i]); } e.s("]"); holds(ce::as_string{ v }, e); }
VS_ENTRY(t2_rows) { const signed char v[2][2]{ { vs_any<signed char>("v"), -128 }, { -127, vs_any<signed char>("w") } }; exp_t e; e.s("[["); e.real(v[0][0]); e.s(", -128], [-127, "); e.real(v[1][1]); e.s("]]"); holds(ce::as_string{ v }, e); }
// the bit form of reals
template<class T, class U> static void bits(const char* head) { out_t o; exp_t e; U u = vs_any<U>("v"); T v; __builtin_memcpy(&v, &u, sizeof v); e.s(head); e.real(u); e.s(">"); done(o, ce::to_text(o.b, v), e); }
VS_ENTRY(f_bits_float) { bits<float, unsigned>("#<f32:"); }
VS_ENTRY(f_bits_double) { bits<double, unsigned long>("#<f64:"); }
