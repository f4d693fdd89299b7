// I01 reflection, N01 enum names, K01 tick clock.
#include "vs.h"
using u8 = unsigned char;

#include "ce/ce.h"
#include "ce/io.h"
#include "ce/nameof.h"
#include "ce/clock.h"

static bool same(char const* a, char const* b)
{
    for (;; ++a, ++b)
    {
        if (*a != *b) return false;
        if (*a == 0) return true;
    }
}

// ---- I01 ----
enum kind_t { k_enter_class = 1, k_leave_class, k_enter_array, k_leave_array, k_name, k_atom };
struct event_t { int kind; char const* name; size_t size; bool dynamic; void* at; unsigned bytes; };
struct visit : ce::io<visit>
{
    event_t e[64]; unsigned n = 0;
    void add(event_t x) { vs_check(n < 64, "bounded visit"); e[n++] = x; }
    void enter_class() { add({ k_enter_class }); }
    void leave_class() { add({ k_leave_class }); }
    void enter_array(size_t& s, bool d) { add({ k_enter_array, nullptr, s, d }); }
    void leave_array(size_t& s, bool d) { add({ k_leave_array, nullptr, s, d }); }
    void name(char const* t) { add({ k_name, t }); }
    template<class T> void atom(T& d) { add({ k_atom, nullptr, 0, false, &d, sizeof(T) }); }
};
struct script
{
    visit& v; unsigned i = 0;
    event_t& next(int kind) { vs_check(i < v.n, "every part is visited"); event_t& x = v.e[i++]; vs_check(x.kind == kind, "the parts come in order"); return x; }
    void cls() { next(k_enter_class); }
    void end() { next(k_leave_class); }
    void arr(size_t n, bool d) { auto& x = next(k_enter_array); vs_check((x.size == n) & (x.dynamic == d), "the extent of the array"); }
    void aend(size_t n, bool d) { auto& x = next(k_leave_array); vs_check((x.size == n) & (x.dynamic == d), "the extent of the array"); }
    void name(char const* t) { vs_check(same(next(k_name).name, t), "the member's name"); }
    template<class T> void atom(T& t) { auto& x = next(k_atom); vs_check(x.at == &t && x.bytes == sizeof(T), "the member itself is visited"); }
    void done() { vs_check(i == v.n, "nothing else is visited"); }
};

struct flat_t { int a; u8 b_2; long long  c; };
struct inner_t { short s[2]; bool flag; };
struct outer_t { inner_t one; inner_t many[2]; double d; ce::vec2<int> p2; ce::vec3<int> p3; ce::vec4<u8> p4; };
struct listed_t { ce::list<u8, 4> bytes; ce::list<inner_t, 2> items; int last; };
struct grid_t { int g[2][3]; };
struct one_t { int only; };
struct as_t { int v; };
struct \u00e9t\u00e9_t { int \u00e9t\u00e9, \u03bb; };
CE_IO_BIND(flat_t,   a ,b_2,	c  );
CE_IO_BIND(inner_t, s, flag);
CE_IO_BIND(outer_t, one, many, d, p2, p3, p4);
CE_IO_BIND(listed_t, bytes, items, last);
CE_IO_BIND(grid_t, g);
CE_IO_BIND(one_t, only);
CE_IO_AS(as_t, int);
CE_IO_BIND(\u00e9t\u00e9_t, \u00e9t\u00e9, \u03bb);

static void inner(script& s, inner_t& t)
{
    s.cls();
    s.name("s"); s.arr(2, false); s.atom(t.s[0]); s.atom(t.s[1]); s.aend(2, false);
    s.name("flag"); s.atom(t.flag);
    s.end();
}
VS_ENTRY(i_flat)
{
    flat_t t; visit v; v.item(t);
    script s{ v };
    s.cls(); s.name("a"); s.atom(t.a); s.name("b_2"); s.atom(t.b_2); s.name("c"); s.atom(t.c); s.end(); s.done();
    vs_cover("completes");
}
VS_ENTRY(i_outer)
{
    outer_t t; visit v; v.item("root", t);
    script s{ v };
    s.name("root"); s.cls();
    s.name("one"); inner(s, t.one);
    s.name("many"); s.arr(2, false); inner(s, t.many[0]); inner(s, t.many[1]); s.aend(2, false);
    s.name("d"); s.atom(t.d);
    s.name("p2"); s.cls(); s.name("x"); s.atom(t.p2.x); s.name("y"); s.atom(t.p2.y); s.end();
    s.name("p3"); s.arr(3, false); s.atom(t.p3.x); s.atom(t.p3.y); s.atom(t.p3.z); s.aend(3, false);
    s.name("p4"); s.arr(4, false); s.atom(t.p4.x); s.atom(t.p4.y); s.atom(t.p4.z); s.atom(t.p4.w); s.aend(4, false);
    s.end(); s.done();
    vs_cover("completes");
}
VS_ENTRY(i_list)
{
    listed_t t;
    t.bytes.size = vs_concretize(vs_range(0, 4, "bytes"));
    t.items.size = vs_concretize(vs_range(0, 2, "items"));
    visit v; v.item(t);
    script s{ v };
    s.cls();
    s.name("bytes"); s.arr(t.bytes.size, true); for (size_t i = 0; i < t.bytes.size; ++i) s.atom(t.bytes.data[i]); s.aend(t.bytes.size, true);
    s.name("items"); s.arr(t.items.size, true); for (size_t i = 0; i < t.items.size; ++i) inner(s, t.items.data[i]); s.aend(t.items.size, true);
    s.name("last"); s.atom(t.last);
    s.end(); s.done();
    vs_cover("completes");
}
VS_ENTRY(i_small)
{
    grid_t g; one_t o; as_t a; int atom;
    visit v; v.item(g); v.item(o); v.item(a); v.item(atom);
    script s{ v };
    s.cls(); s.name("g"); s.arr(2, false);
    for (int i = 0; i < 2; ++i) { s.arr(3, false); for (int k = 0; k < 3; ++k) s.atom(g.g[i][k]); s.aend(3, false); }
    s.aend(2, false); s.end();
    s.cls(); s.name("only"); s.atom(o.only); s.end();
    s.atom(*(int*)&a);
    s.atom(atom);
    s.done();
    vs_cover("completes");
}
VS_ENTRY(i_unicode)
{
    \u00e9t\u00e9_t t; visit v; v.item(t);
    script s{ v };
    s.cls(); s.name("\u00e9t\u00e9"); s.atom(t.\u00e9t\u00e9); s.name("\u03bb"); s.atom(t.\u03bb); s.end(); s.done();
    vs_cover("completes");
}
// a visitor that reads: every atom and every list size is replaced
struct loader : ce::io<loader>
{
    u8 const* from; unsigned n = 0;
    size_t count;
    void enter_class() { }
    void leave_class() { }
    void enter_array(size_t& s, bool d) { if (d) s = count; }
    void leave_array(size_t&, bool) { }
    void name(char const*) { }
    template<class T> void atom(T& d) { d = (T)from[n++]; }
};
VS_ENTRY(i_load)
{
    u8 from[16];
    for (auto& b : from) b = vs_any<u8>("value");
    struct { ce::list<u8, 4> bytes; int after; } t;
    t.after = 99;
    t.bytes.size = vs_concretize(vs_range(0, 4, "old"));
    size_t count = vs_concretize(vs_range(0, 4, "new"));
    loader l; l.from = from; l.count = count;
    l.item(t.bytes);
    vs_check(t.bytes.size == count, "the visitor's size reaches the list");
    for (size_t i = 0; i < count; ++i) vs_check(t.bytes.data[i] == from[i], "the visitor's items reach the list");
    vs_check(l.n == count, "exactly the items are visited");
    vs_check(t.after == 99, "nothing beyond the list changes");
    vs_cover("completes");
}
VS_ENTRY(i_load_flat)
{
    u8 from[16];
    for (auto& b : from) b = vs_any<u8>("value");
    outer_t t;
    loader l; l.from = from; l.count = 0;
    l.item(t.one); l.item(t.p2); l.item(t.p3); l.item(t.p4);
    vs_check((t.one.s[0] == from[0]) & (t.one.s[1] == from[1]) & (t.one.flag == (from[2] != 0)), "the visitor's values reach the members");
    vs_check((t.p2.x == from[3]) & (t.p2.y == from[4]) & (t.p3.x == from[5]) & (t.p3.y == from[6]) & (t.p3.z == from[7]), "the visitor's values reach the vectors");
    vs_check((t.p4.x == from[8]) & (t.p4.y == from[9]) & (t.p4.z == from[10]) & (t.p4.w == from[11]), "the visitor's values reach the vectors");
    vs_cover("completes");
}
// the names parser on any list of identifiers
template<int N, int COUNT> static void io_names()
{
    using text_t = char const (&)[N];
    char* text = (char*)__builtin_malloc(N);
    unsigned from[COUNT], size[COUNT], piece = 0;
    for (auto& s : size) s = 0;
    int length = (int)vs_concretize(vs_range(0, N - 1, "length"));
    bool closed = false;
    for (int i = 0; i < N; ++i)
    {
        if (i >= length) { text[i] = 0; continue; }
        char c = (char)vs_any<u8>("c");
        vs_assume(c != 0);
        text[i] = c;
        if (c == ',') { vs_assume(piece + 1 < COUNT); ++piece; closed = false; }
        else if ((u8)c <= ' ') { if (size[piece]) closed = true; }
        else { vs_assume(!closed); if (size[piece]++ == 0) from[piece] = (unsigned)i; }
    }
    vs_assume(piece + 1 == COUNT);
    auto* k = (ce::names_t<N, COUNT>*)__builtin_malloc(sizeof(ce::names_t<N, COUNT>));
    new((ce::detail::new_tag*)k) ce::names_t<N, COUNT>(*(char const (*)[N])text);
    for (unsigned i = 0; i < COUNT; ++i)
    {
        unsigned off = (unsigned)(k->names[i] - k->text);
        vs_check(off < N && off + size[i] < N, "the name lies in the storage");
        for (unsigned j = 0; j < size[i]; ++j) vs_check(k->text[off + j] == text[from[i] + j], "the name is the member's identifier");
        vs_check(k->text[off + size[i]] == 0, "the name ends with the identifier");
    }
    vs_cover("completes");
}
VS_ENTRY(i_names_1) { io_names<6, 1>(); }
VS_ENTRY(i_names_2) { io_names<7, 2>(); }
VS_ENTRY(i_names_3) { io_names<7, 3>(); }
VS_ENTRY(i_names_2_10) { io_names<10, 2>(); }
VS_ENTRY(i_names_4_9) { io_names<9, 4>(); }

// ---- N01 ----
enum class n_u8 : u8 { zero, one, forty = 40, top = 255 };
enum class n_i8 : signed char { zero, five = 5, most = 127, minus = -3 };
enum class n_i16 : short { zero, one, big = 200 };
enum class n_int { first, second, sixtyfour = 64, sixtyfive, hundred = 128 };
enum class n_u32 : unsigned { a, ab, abc, b = 254 };
enum class n_i64 : long long { a, b, c = 31 };
enum class n_u64 : unsigned long long { zero = 0, x = 63, xx = 64, xxx = 127, last = 255 };
enum n_plain { red, green, blue };
enum class n_bool : bool { no, yes };
namespace outer { namespace middle { enum class n_deep { alpha, beta, gamma = 9 }; struct holder { enum test { _unknown, ucla, uci }; enum class cls { p, q }; }; } enum n_flat { fa, fb }; }
namespace { enum class n_anon { here, there, far = 77 }; enum n_anon_plain { ha, hb }; }
template<int N> struct n_tmpl { enum class e { t0, t1 }; };

template<class T> struct pair_t { T value; char const* name; };
template<class T, unsigned N> static void enum_names(pair_t<T> const (&known)[N])
{
    using U = __underlying_type(T);
    U raw = vs_any<U>("value");
    T value = (T)raw;
    char const* got = ce::nameof(value);
    char const* want = "???";
    for (auto& k : known) if (k.value == value) want = k.name;
    vs_check(same(got, want), "the name of the value");
    vs_cover("completes");
}
#define V(E, X) { E::X, #X }
VS_ENTRY(n_name_u8) { enum_names<n_u8>({ V(n_u8, zero), V(n_u8, one), V(n_u8, forty), V(n_u8, top) }); }
VS_ENTRY(n_name_i8) { n_i8 m = n_i8::minus; (void)m; pair_t<n_i8> k[] = { V(n_i8, zero), V(n_i8, five), V(n_i8, most) }; vs_assume(true); signed char raw = vs_any<signed char>("value"); vs_assume(raw >= 0); char const* want = "???"; for (auto& x : k) if (x.value == (n_i8)raw) want = x.name; vs_check(same(ce::nameof((n_i8)raw), want), "the name of the value"); vs_cover("completes"); }
VS_ENTRY(n_name_i16) { enum_names<n_i16>({ V(n_i16, zero), V(n_i16, one), V(n_i16, big) }); }
VS_ENTRY(n_name_int) { enum_names<n_int>({ V(n_int, first), V(n_int, second), V(n_int, sixtyfour), V(n_int, sixtyfive), V(n_int, hundred) }); }
VS_ENTRY(n_name_u32) { enum_names<n_u32>({ V(n_u32, a), V(n_u32, ab), V(n_u32, abc), V(n_u32, b) }); }
VS_ENTRY(n_name_i64) { enum_names<n_i64>({ V(n_i64, a), V(n_i64, b), V(n_i64, c) }); }
VS_ENTRY(n_name_u64) { enum_names<n_u64>({ V(n_u64, zero), V(n_u64, x), V(n_u64, xx), V(n_u64, xxx), V(n_u64, last) }); }
VS_ENTRY(n_name_plain) { enum_names<n_plain>({ { red, "red" }, { green, "green" }, { blue, "blue" } }); }
VS_ENTRY(n_name_deep) { using namespace outer::middle; enum_names<n_deep>({ V(n_deep, alpha), V(n_deep, beta), V(n_deep, gamma) }); }
VS_ENTRY(n_name_member) { using namespace outer::middle; enum_names<holder::test>({ V(holder, _unknown), V(holder, ucla), V(holder, uci) }); }
VS_ENTRY(n_name_member_class) { using namespace outer::middle; enum_names<holder::cls>({ V(holder::cls, p), V(holder::cls, q) }); }
VS_ENTRY(n_name_flat) { enum_names<outer::n_flat>({ V(outer, fa), V(outer, fb) }); }
VS_ENTRY(n_name_anon) { enum_names<n_anon>({ V(n_anon, here), V(n_anon, there), V(n_anon, far) }); }
VS_ENTRY(n_name_anon_plain) { enum_names<n_anon_plain>({ { ha, "ha" }, { hb, "hb" } }); }
VS_ENTRY(n_name_tmpl) { enum_names<n_tmpl<3>::e>({ V(n_tmpl<3>::e, t0), V(n_tmpl<3>::e, t1) }); }

template<class T, unsigned L, unsigned N> static void enum_values(pair_t<T> const (&known)[N])
{
    using U = __underlying_type(T);
    unsigned n = (unsigned)vs_concretize(vs_range(0, L, "length"));
    char* text = (char*)__builtin_malloc(n + 1);
    for (unsigned i = 0; i < n; ++i) { text[i] = (char)vs_any<u8>("c"); vs_assume(text[i] != 0); }
    text[n] = 0;
    T unknown = (T)vs_any<U>("unknown");
    T got = ce::as_enum<T>(text, unknown);
    T want = unknown;
    for (auto& k : known) if (same(k.name, text)) want = k.value;
    vs_check(got == want, "the enumerator with exactly this name, or the default");
    vs_cover("completes");
}
VS_ENTRY(n_value_u32) { enum_values<n_u32, 5>({ V(n_u32, a), V(n_u32, ab), V(n_u32, abc), V(n_u32, b) }); }
VS_ENTRY(n_value_u64) { enum_values<n_u64, 6>({ V(n_u64, zero), V(n_u64, x), V(n_u64, xx), V(n_u64, xxx), V(n_u64, last) }); }
VS_ENTRY(n_value_u8) { enum_values<n_u8, 6>({ V(n_u8, zero), V(n_u8, one), V(n_u8, forty), V(n_u8, top) }); }
VS_ENTRY(n_value_int) { enum_values<n_int, 10>({ V(n_int, first), V(n_int, second), V(n_int, sixtyfour), V(n_int, sixtyfive), V(n_int, hundred) }); }
VS_ENTRY(n_value_plain) { enum_values<n_plain, 6>({ { red, "red" }, { green, "green" }, { blue, "blue" } }); }
VS_ENTRY(n_value_deep) { using namespace outer::middle; enum_values<n_deep, 6>({ V(n_deep, alpha), V(n_deep, beta), V(n_deep, gamma) }); }
VS_ENTRY(n_value_anon) { enum_values<n_anon, 6>({ V(n_anon, here), V(n_anon, there), V(n_anon, far) }); }
VS_ENTRY(n_value_default)
{
    char* text = (char*)__builtin_malloc(3);
    text[0] = (char)vs_any<u8>("c"); text[1] = (char)vs_any<u8>("c"); text[2] = 0;
    n_int got = ce::as_enum<n_int>(text);
    vs_check(got == n_int{ }, "no enumerator: the type's zero");
    vs_cover("completes");
}
// every enumerator round-trips
template<class T, unsigned N> static void enum_round(pair_t<T> const (&known)[N])
{
    unsigned i = (unsigned)vs_concretize(vs_range(0, N - 1, "which"));
    vs_check(ce::as_enum<T>(ce::nameof(known[i].value), (T)vs_any<__underlying_type(T)>("unknown")) == known[i].value, "the name converts back to the value");
    vs_cover("completes");
}
VS_ENTRY(n_round_u8) { enum_round<n_u8>({ V(n_u8, zero), V(n_u8, one), V(n_u8, forty), V(n_u8, top) }); }
VS_ENTRY(n_round_deep) { using namespace outer::middle; enum_round<n_deep>({ V(n_deep, alpha), V(n_deep, beta), V(n_deep, gamma) }); }
template<class, class> struct n_two { };
VS_ENTRY(n_type)
{
    vs_check(same(ce::nameof<int>(), "int"), "the name of a type");
    vs_check(same(ce::nameof<n_int>(), "n_int"), "the name of a type");
    vs_check(same(ce::nameof<flat_t>(), "flat_t"), "the name of a type");
    vs_check(same(ce::nameof<unsigned long long>(), "unsigned long long"), "the whole name of a type of several words");
    vs_check(same(ce::nameof<n_two<unsigned char, long>>(), "n_two<unsigned char, long>"), "the whole name of a template type");
    vs_cover("completes");
}

// ---- K01 ----
static uint64_t now_ts, now_frequency;
namespace ce { namespace os { uint64_t monotonic_timestamp() { return now_ts; } uint64_t monotonic_frequency() { return now_frequency; } } }

// one reading from every state a clock can reach: residual < frequency * Fd, and the ticks so far account for the time so far
// a reading after any 64-bit number of units: the remainder equation modulo 2^64 and the range of the count determine it
template<uint64_t Fn, uint64_t Fd, uint64_t F> static void tick_step()
{
    constexpr uint64_t fd = F * Fd;
    static_assert(fd * (Fn + 1) / fd == Fn + 1);
    ce::clock<Fn, Fd> c;
    c.frequency = F;
    c.timestamp = vs_any<uint64_t>("timestamp");
    c.residual = vs_range(0, fd - 1, "residual");
    c.tick = vs_any<uint64_t>("tick");
    uint64_t before = c.residual, tick = c.tick;
    uint64_t e = vs_any<uint64_t>("elapsed");
    if (~0ull / fd > ~0ull / Fn - 2) vs_assume(e < (~0ull / Fn - 2) * fd);
    now_ts = c.timestamp + e;
    now_frequency = vs_any<uint64_t>("frequency now");
    bool read = vs_any<bool>("through current()");
    uint64_t got;
    if (read) got = c.current() - tick;
    else got = c.elapsed();
    vs_check(c.tick == tick + got, "the ticks of this reading are counted");
    vs_check(c.timestamp == now_ts, "the next reading starts here");
    vs_check(c.residual < fd, "less than a tick remains");
    vs_check(got * fd + c.residual == e * Fn + before, "ticks and remainder account for all the time");
    vs_check((got >= e / fd * Fn) & (got <= e / fd * Fn + Fn), "no fewer and no more ticks than the time allows");
    vs_check(c.frequency == F, "the frequency is the one at reset");
    vs_cover("completes");
}
VS_ENTRY(k_step_1) { tick_step<1, 1, 1000000000>(); }
VS_ENTRY(k_step_60) { tick_step<60, 1, 1000000000>(); }
VS_ENTRY(k_step_1000) { tick_step<1000, 1, 1000000000>(); }
VS_ENTRY(k_step_ntsc) { tick_step<60000, 1001, 1000000000>(); }
VS_ENTRY(k_step_slow) { tick_step<1, 60, 1000000000>(); }
VS_ENTRY(k_step_same) { tick_step<1000000000, 1, 1000000000>(); }
VS_ENTRY(k_step_fast) { tick_step<1000, 1, 48>(); }
VS_ENTRY(k_step_mhz) { tick_step<240, 7, 3579545>(); }

// from reset, any readings: the count is the rounded-down time and each reading gains the difference
template<uint64_t Fn, uint64_t Fd, uint64_t F, unsigned N> static void tick_history(unsigned bits)
{
    constexpr uint64_t fd = F * Fd;
    ce::clock<Fn, Fd> c;
    c.frequency = c.residual = c.tick = c.timestamp = vs_any<uint64_t>("before reset");
    uint64_t start = vs_any<uint64_t>("start");
    now_ts = start; now_frequency = F;
    c.reset();
    vs_check(c.tick == 0, "reset starts at zero");
    uint64_t total = 0, last = 0;
    for (unsigned i = 0; i < N; ++i)
    {
        uint64_t e = vs_range(0, (1ull << bits) - 1, "elapsed");
        total += e;
        now_ts += e;
        uint64_t got = c.elapsed();
        vs_check(got == total * Fn / fd - last, "each reading returns the ticks gained");
        last += got;
        vs_check(c.tick == last, "the count is the elapsed time times the rate rounded down");
    }
    vs_check(c.current() == last, "reading again at the same time gains nothing");
    vs_cover("completes");
}
VS_ENTRY(k_history_3) { tick_history<3, 1, 7, 3>(6); }
VS_ENTRY(k_history_5) { tick_history<5, 3, 4, 3>(6); }
VS_ENTRY(k_history_pow) { tick_history<60, 1, 1024, 3>(20); }

