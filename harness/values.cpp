// U01: small value helpers: get, character classes, rgba, constant sequences.
#include "vs.h"
#include "ce/ce.h"
using u8 = unsigned char;
struct one { int a; }; struct two { int a; u8 b; }; struct three { int64_t a; u8 b; int c; }; struct four { u8 a; int64_t b; short c; u8 d; };
VS_ENTRY(u_get)
{
    int a = vs_any<int>("a"); u8 b = vs_any<u8>("b"); int64_t l = vs_any<int64_t>("l"); short c = vs_any<short>("c"); u8 d = vs_any<u8>("d");
    one s1{ a }; vs_check(ce::get<0>(s1) == a, "the only member");
    two s2{ a, b }; vs_check((ce::get<0>(s2) == a) & (ce::get<1>(s2) == b), "two members");
    three s3{ l, b, a }; vs_check((ce::get<0>(s3) == l) & (ce::get<1>(s3) == b) & (ce::get<2>(s3) == a), "three members");
    four s4{ b, l, c, d }; vs_check((ce::get<0>(s4) == b) & (ce::get<1>(s4) == l) & (ce::get<2>(s4) == c) & (ce::get<3>(s4) == d), "four members");
    ce::pair<u8, int64_t> p{ b, l }; vs_check((ce::get<0>(p) == b) & (ce::get<1>(p) == l), "a pair");
    ce::tuple<int, u8, short> t{ a, b, c }; vs_check((ce::get<0>(t) == a) & (ce::get<1>(t) == b) & (ce::get<2>(t) == c), "a tuple");
    ce::tuple<u8, short, int, int64_t> q{ b, c, a, l }; vs_check((ce::get<0>(q) == b) & (ce::get<1>(q) == c) & (ce::get<2>(q) == a) & (ce::get<3>(q) == l), "a tuple of four");
    vs_cover("completes");
}
static bool in(int c, char lo, char hi) { return (c >= lo) & (c <= hi); }
VS_ENTRY(u_ascii)
{
    u8 b = vs_any<u8>("c"); char c = (char)b;
    bool digit = in(b, 48, 57), up = in(b, 65, 90), low = in(b, 97, 122);
    vs_check(ce::ascii::is_base10(c) == digit, "digits");
    vs_check(ce::ascii::is_upper(c) == up, "capitals");
    vs_check(ce::ascii::is_lower(c) == low, "small letters");
    vs_check(ce::ascii::is_alpha(c) == (up | low), "letters");
    vs_check(ce::ascii::is_base16(c) == (digit | in(b, 65, 70) | in(b, 97, 102)), "hexadecimal digits");
    vs_check(ce::ascii::is_base64(c) == (digit | up | low | (b == 43) | (b == 47)), "base64 digits");
    vs_cover("completes");
}
template<class T> static void rgba()
{
    ce::rgba<T> c{ vs_any<T>("r"), vs_any<T>("g"), vs_any<T>("b"), vs_any<T>("a") };
    T const (&v)[4] = c;
    auto& w = c();
    vs_check((v[0] == c.r) & (v[1] == c.g) & (v[2] == c.b) & (v[3] == c.a), "red, green, blue, alpha");
    vs_check((&w[0] == &v[0]) & (&v[0] == &c.r), "the same storage");
}
VS_ENTRY(u_rgba) { rgba<u8>(); rgba<int>(); rgba<int64_t>(); vs_cover("completes"); }
template<size_t...Is> static void counts(ce::items<size_t, Is...>, size_t n)
{
    static const size_t v[]{ Is..., n };
    vs_check(sizeof...(Is) == n, "as many as asked for");
    size_t i = vs_range(0, n, "i");
    vs_check(v[i] == i, "0 to N - 1 in order");
}
template<size_t N> static void sequences() { counts(ce::sequence_t<size_t, N>{}, N); if constexpr (N > 0) sequences<N - 1>(); }
VS_ENTRY(u_sequence)
{
    sequences<40>();
    counts(ce::sequence_t<size_t, 256>{}, 256);
    counts(ce::sequence_t<size_t, 500>{}, 500);
    vs_cover("completes");
}
// a mapped file seen as items: as many whole items as fit, at the mapped place
static bool mapped; static size_t map_size; static u8 map_bytes[64]; static char const* map_path; static ce::os::file_t map_file;
namespace ce { namespace os {
    bool map_span(span<uint8_t const>& s, file_t f) { s = { mapped ? map_size : 0, mapped ? map_bytes : nullptr }; map_file = f; return mapped; }
    bool map_span(span<uint8_t const>& s, char const path[]) { s = { mapped ? map_size : 0, mapped ? map_bytes : nullptr }; map_path = path; return mapped; }
} }
template<class T> static void typed()
{
    mapped = vs_any<bool>("mapped"); map_size = vs_any<size_t>("size");
    char const* path = "a"; map_path = nullptr;
    auto s = ce::os::map_span<T>(path);
    vs_check(map_path == path, "the path asked for");
    vs_check(s.size == (mapped ? map_size / sizeof(T) : 0), "as many whole items as the file holds");
    vs_check((u8 const*)s.data == (mapped ? map_bytes : nullptr), "at the mapped place");
    ce::os::file_t f{ map_bytes }; map_file.os_handle = nullptr;
    auto t = ce::os::map_span<T>(f);
    vs_check(map_file.os_handle == f.os_handle && t.size == s.size && t.data == s.data, "the same by an open file");
}
VS_ENTRY(u_map) { typed<u8>(); typed<uint32_t>(); typed<ce::vec3<int>>(); vs_cover("completes"); }
