// L01 log keys, L02 checks, L03 default log and error records.
#define VS_KEEP_HOOKS
#include "vs.h"
using u8 = unsigned char;

struct record_t { int calls, order, level, argc; char text[12][2][160]; bool null_end; };
static record_t log_rec, err_rec;
static int sequence, breaks;
static bool want_break;

static void keep(record_t& r, int level, int argc, char const* argv[][2])
{
    ++r.calls;
    r.order = ++sequence;
    r.level = level;
    r.argc = argc;
    for (int i = 0; i < argc; ++i)
        for (int k = 0; k < 2; ++k)
        {
            char const* s = argv[i][k];
            unsigned n = 0;
            while (n < 159 && s[n] != 0) { r.text[i][k][n] = s[n]; ++n; }
            vs_check(n < 159, "the text ends");
            r.text[i][k][n] = 0;
        }
    r.null_end = argv[argc][0] == nullptr && argv[argc][1] == nullptr;
}
static void rec_log(int level, int argc, char const* argv[][2]) { keep(log_rec, level, argc, argv); }
static bool rec_err(int level, int argc, char const* argv[][2]) { keep(err_rec, level, argc, argv); return want_break; }

#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) rec_log(LEVEL, ARGC, __VA_ARGS__)
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) rec_err(LEVEL, ARGC, __VA_ARGS__)
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) to_text_from_ieee754(T, N)
#include "to_text.cpp"
#undef CE_DEBUG_BREAK
#define CE_DEBUG_BREAK() (++breaks)

static bool same(char const* a, char const* b)
{
    for (;; ++a, ++b)
    {
        if (*a != *b) return false;
        if (*a == 0) return true;
    }
}

// ---- L01 ----
static bool is_space(char c) { return (u8)c <= ' '; }

// reference splitter: the start and end of every piece, or false when the text is not a list of exactly `count` arguments
static bool split(char const* s, unsigned n, unsigned count, unsigned* from, unsigned* to)
{
    unsigned piece = 0, start = 0;
    char open[16];
    unsigned depth = 0;
    char in = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        char c = s[i];
        if (in)
        {
            if (c == '\\') { if (++i == n) return false; continue; }
            if (c == in) in = 0;
            continue;
        }
        if (c == '"' || c == '\'') in = c;
        else if (c == '(' || c == '[' || c == '{') open[depth++] = c;
        else if (c == ')' || c == ']' || c == '}')
        {
            if (depth == 0) return false;
            char o = open[--depth];
            if (c == ')' ? o != '(' : c == ']' ? o != '[' : o != '{') return false;
        }
        else if (c == ',' && depth == 0)
        {
            if (piece + 1 == count) return false;
            from[piece] = start; to[piece] = i; ++piece;
            start = i + 1;
        }
    }
    if (in || depth) return false;
    from[piece] = start; to[piece] = n; ++piece;
    return piece == count;
}

template<unsigned L, unsigned COUNT> static void keys(bool full)
{
    unsigned n = (unsigned)vs_concretize(vs_range(0, L, "length"));
    char* text = (char*)__builtin_malloc(n + 1);
    for (unsigned i = 0; i < n; ++i)
    {
        char c = (char)vs_any<u8>("c");
        vs_assume(c != 0);
        if (!full) vs_assume((c == ',') | (c == ' ') | (c == '"') | (c == '\\') | (c == '(') | (c == ')') | (c == 'a') | (c == (char)0xc3));
        text[i] = c;
    }
    text[n] = 0;
    unsigned from[COUNT], to[COUNT];
    bool ok = split(text, n, COUNT, from, to);
    auto* k = (ce::names<L + 1, COUNT>*)__builtin_malloc(sizeof(ce::names<L + 1, COUNT>));
    new((ce::detail::new_tag*)k) ce::names<L + 1, COUNT>(text);
    for (unsigned i = 0; i < COUNT; ++i)
    {
        unsigned off = (unsigned)(k->data[i] - k->text);
        vs_check(off <= L, "every key lies in the storage");
        unsigned e = off;
        while (e <= L && k->text[e] != 0) ++e;
        vs_check(e <= L, "every key ends in the storage");
        if (ok)
        {
            unsigned f = from[i], t = to[i];
            while (f < t && is_space(text[f])) ++f;
            while (f < t && is_space(text[t - 1])) --t;
            vs_check(e - off == t - f, "the key is the trimmed argument");
            for (unsigned j = 0; j < t - f; ++j)
                vs_check(k->text[off + j] == text[f + j], "the key is the argument's text");
        }
    }
    if (ok) vs_cover("split");
    vs_cover("completes");
}
VS_ENTRY(l1_1) { keys<6, 1>(false); }
VS_ENTRY(l1_2) { keys<5, 2>(false); }
VS_ENTRY(l1_3) { keys<5, 3>(false); }
VS_ENTRY(l1_full_1) { keys<4, 1>(true); }
VS_ENTRY(l1_full_2) { keys<4, 2>(true); }
VS_ENTRY(l1_full_3) { keys<3, 3>(true); }
VS_ENTRY(l1_1_8) { keys<8, 1>(false); }
VS_ENTRY(l1_2_7) { keys<7, 2>(false); }
VS_ENTRY(l1_3_7) { keys<7, 3>(false); }
VS_ENTRY(l1_4_7) { keys<7, 4>(false); }
VS_ENTRY(l1_full_2_5) { keys<5, 2>(true); }

// ---- L01 / L02: the macros ----
static void expect_log(int level, int argc)
{
    vs_check(log_rec.calls == 1 && err_rec.calls == 0, "one record is logged");
    vs_check(log_rec.level == level, "the record carries its level");
    vs_check(log_rec.argc == argc, "one pair per argument");
    vs_check(log_rec.null_end, "the list of pairs is terminated");
}
static void pair(record_t const& r, int i, char const* key, char const* value)
{
    vs_check(same(r.text[i][0], key), "the key is the argument's text");
    vs_check(same(r.text[i][1], value), "the value is the argument's value as text");
}
static int digit(char* t) { int v = (int)vs_range(0, 9, "digit"); t[0] = (char)('0' + v); t[1] = 0; return v; }

VS_ENTRY(l1_log_levels)
{
    char t[2]; int v = digit(t);
    unsigned which = (unsigned)vs_concretize(vs_range(0, 7, "level"));
    switch (which)
    {
    case 0: CE_LOG(fatal, v); break;
    case 1: CE_LOG(error, v); break;
    case 2: CE_LOG(warn, v); break;
    case 3: CE_LOG(note, v); break;
    case 4: CE_LOG(info, v); break;
    case 5: CE_LOG(debug, v); break;
    case 6: CE_LOG(spam, v); break;
    case 7: CE_LOG(more, v); break;
    }
    static char const* const name[] = { "fatal", "error", "warn", "note", "info", "debug", "spam", "more" };
    expect_log((int)which, 2);
    pair(log_rec, 0, "$", name[which]);
    pair(log_rec, 1, "v", t);
    vs_cover("completes");
}
template<class T> static T pass(T a, T) { return a; }
VS_ENTRY(l1_log_args)
{
    char ta[2], tb[2]; int a = digit(ta), b = digit(tb);
    int list[2] = { a, b };
    char s[3] = { (char)vs_range(1, 127, "s0"), (char)vs_range(1, 127, "s1"), 0 };
    char const* p = s;
    CE_LOG(info, a , pass(b, a), list[(0, 1)], "x,\"y(", ',', p);
    expect_log(4, 7);
    pair(log_rec, 0, "$", "info");
    pair(log_rec, 1, "a", ta);
    pair(log_rec, 2, "pass(b, a)", tb);
    pair(log_rec, 3, "list[(0, 1)]", tb);
    pair(log_rec, 4, "\"x,\\\"y(\"", "x,\"y(");
    pair(log_rec, 5, "','", ",");
    pair(log_rec, 6, "p", s);
    vs_cover("completes");
}
VS_ENTRY(l1_log_none)
{
    CE_LOG(warn);
    expect_log(2, 1);
    pair(log_rec, 0, "$", "warn");
    vs_cover("completes");
}
VS_ENTRY(l1_log_msg)
{
    char t[2]; int a = digit(t);
    CE_LOG_MSG(note, "n = ", a, ", done");
    char m[16] = "n = ";
    m[4] = t[0];
    char const* e = ", done";
    for (int i = 0; i < 7; ++i) m[5 + i] = e[i];
    expect_log(3, 2);
    pair(log_rec, 0, "$", "note");
    pair(log_rec, 1, "$msg", m);
    vs_cover("completes");
}
VS_ENTRY(l1_log_unicode)
{
    int \u00e9t\u00e9 = 3, \u03bb = 4;
    CE_LOG(info, \u00e9t\u00e9, \u03bb);
    expect_log(4, 3);
    pair(log_rec, 1, "\u00e9t\u00e9", "3");
    pair(log_rec, 2, "\u03bb", "4");
    vs_cover("completes");
}

// ---- L02 ----
static int evaluated, argument;
static bool cond(bool c) { ++evaluated; return c; }
static int arg(int v) { ++argument; return v; }
static void line_text(char* out, char const* file, unsigned line)
{
    unsigned n = 0;
    while (file[n]) { out[n] = file[n]; ++n; }
    out[n++] = '(';
    char d[10]; unsigned k = 0;
    while (line) { d[k++] = (char)('0' + line % 10); line /= 10; }
    while (k) out[n++] = d[--k];
    out[n++] = ')';
    out[n] = 0;
}
// __FILE__ is a path of the harness; the record must carry all of it
static void expect_report(bool reported, bool brk, char const* kind, char const* what, char const* more, unsigned line, int argc)
{
    vs_check(log_rec.calls == (reported ? 1 : 0), "the log hook sees the report exactly if the check fails");
    vs_check(err_rec.calls == (reported ? 1 : 0), "the error hook sees the report exactly if the check fails");
    vs_check(breaks == (reported & brk ? 1 : 0), "a break exactly if the error hook asks for one");
    if (!reported) return;
    vs_check(log_rec.order < err_rec.order, "the log hook comes first");
    char at[200];
    line_text(at, __FILE__, line);
    for (int k = 0; k < 2; ++k)
    {
        record_t const& r = k ? err_rec : log_rec;
        vs_check(r.level == 0, "a failed check is fatal");
        vs_check(r.argc == 2 + argc, "one pair per argument after the two of the check");
        vs_check(r.null_end, "the list of pairs is terminated");
        vs_check(same(r.text[0][0], kind), "the kind of the check");
        vs_check(same(r.text[0][1], at), "the file and line");
        vs_check(same(r.text[1][0], what), "the text of the condition");
        vs_check(same(r.text[1][1], more), "the text of the arguments");
    }
}
static void expect_arg(int i, char const* value)
{
    for (int k = 0; k < 2; ++k) pair(k ? err_rec : log_rec, 2 + i, "...", value);
}

VS_ENTRY(l2_assert)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    unsigned line = __LINE__; CE_ASSERT(cond(c));
    vs_check(evaluated == 1, "the condition is evaluated once");
    expect_report(!c, want_break, "CE_ASSERT", "cond(c)", "", line, 0);
    vs_cover("completes");
}
VS_ENTRY(l2_verify)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    unsigned line = __LINE__; bool r = CE_VERIFY(cond(c));
    vs_check(evaluated == 1, "the condition is evaluated once");
    vs_check(r == c, "CE_VERIFY yields the condition");
    expect_report(!c, want_break, "CE_VERIFY", "cond(c)", "", line, 0);
    vs_cover("completes");
}
VS_ENTRY(l2_reject)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    unsigned line = __LINE__; bool r = CE_REJECT(cond(c));
    vs_check(evaluated == 1, "the condition is evaluated once");
    vs_check(r == c, "CE_REJECT yields the condition");
    expect_report(c, want_break, "CE_REJECT", "cond(c)", "", line, 0);
    vs_cover("completes");
}
VS_ENTRY(l2_assert_args)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    char ta[2], tb[2]; int a = digit(ta), b = digit(tb);
    char s[3] = { (char)vs_range(1, 127, "s0"), (char)vs_range(1, 127, "s1"), 0 };
    char const* p = s;
    unsigned line = __LINE__; CE_ASSERT(cond(c), arg(a), "text", p, b);
    vs_check(evaluated == 1, "the condition is evaluated once");
    vs_check(argument == (c ? 0 : 1), "the arguments are evaluated for a report only");
    expect_report(!c, want_break, "CE_ASSERT", "cond(c)", "arg(a), \"text\", p, b", line, 4);
    if (!c)
    {
        expect_arg(0, ta);
        expect_arg(1, "text");
        expect_arg(2, s);
        expect_arg(3, tb);
    }
    vs_cover("completes");
}
VS_ENTRY(l2_verify_args)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    char ta[2]; long long a = digit(ta);
    unsigned line = __LINE__; bool r = CE_VERIFY(cond(c), a, -9223372036854775807ll - 1);
    vs_check(r == c, "CE_VERIFY yields the condition");
    vs_check(evaluated == 1, "the condition is evaluated once");
    expect_report(!c, want_break, "CE_VERIFY", "cond(c)", "a, -9223372036854775807ll - 1", line, 2);
    if (!c)
    {
        expect_arg(0, ta);
        expect_arg(1, "-9223372036854775808");
    }
    vs_cover("completes");
}
VS_ENTRY(l2_reject_args)
{
    bool c = vs_any<bool>("condition");
    want_break = vs_any<bool>("break");
    char ta[2]; int a = digit(ta);
    unsigned line = __LINE__; bool r = CE_REJECT(cond(c), a);
    vs_check(r == c, "CE_REJECT yields the condition");
    vs_check(evaluated == 1, "the condition is evaluated once");
    expect_report(c, want_break, "CE_REJECT", "cond(c)", "a", line, 1);
    if (c) expect_arg(0, ta);
    vs_cover("completes");
}
VS_ENTRY(l2_compound)
{
    bool c = vs_any<bool>("c"), d = vs_any<bool>("d");
    want_break = vs_any<bool>("break");
    unsigned which = (unsigned)vs_concretize(vs_range(0, 2, "macro"));
    unsigned line = 0;
    bool r = false;
    switch (which)
    {
    case 0: line = __LINE__; r = CE_VERIFY(c || cond(d)) & 1; break;
    case 1: line = __LINE__; r = CE_REJECT(c || cond(d)) & 1; break;
    case 2: line = __LINE__; CE_ASSERT(c || cond(d)); r = c | d; break;
    }
    vs_check(r == (c | d), "the whole condition decides");
    static char const* const kind[] = { "CE_VERIFY", "CE_REJECT", "CE_ASSERT" };
    expect_report(which == 1 ? (c | d) : !(c | d), want_break, kind[which], "c || cond(d)", "", line, 0);
    vs_cover("completes");
}
VS_ENTRY(l2_condition_use)
{
    bool c = vs_any<bool>("c"), d = vs_any<bool>("d");
    int taken = 0;
    if (CE_VERIFY(c) && d) taken |= 1;
    if (!CE_VERIFY(c) || d) taken |= 2;
    vs_check(taken == ((c & d ? 1 : 0) | (!c | d ? 2 : 0)), "CE_VERIFY is usable in a larger condition");
    vs_cover("completes");
}
VS_ENTRY(l2_error)
{
    char ta[2]; int a = digit(ta);
    want_break = vs_any<bool>("break");
    bool with = vs_any<bool>("with");
    unsigned line;
    if (with) { line = __LINE__; CE_ERROR(a, "text"); }
    else { line = __LINE__; CE_ERROR(); }
    expect_report(true, true, "CE_ERROR", "", with ? "a, \"text\"" : "", line, with ? 2 : 0);
    if (with) { expect_arg(0, ta); expect_arg(1, "text"); }
    vs_cover("completes");
}

// ---- L03: the default hooks over a recording debug_out ----
static char out[400];
static unsigned out_size;
namespace ce { namespace os { void debug_out(char const text[]) { if (text == nullptr) return; while (*text) { vs_check(out_size < 399, "bounded output"); out[out_size++] = *text++; } } } }
#include "os.cpp"

static char want[400];
static unsigned want_size;
static void put(char const* s) { while (*s) want[want_size++] = *s++; }
static void compare()
{
    vs_check(out_size == want_size, "exactly the record is written");
    for (unsigned i = 0; i < want_size; ++i) vs_check(out[i] == want[i], "the record is written in order");
}
template<unsigned N> static void fill(char const* (&argv)[N][2], unsigned count, unsigned max)
{
    for (unsigned i = 0; i < N; ++i)
        for (int k = 0; k < 2; ++k)
        {
            argv[i][k] = nullptr;
            if (i >= count) continue;
            unsigned n = (unsigned)vs_concretize(vs_range(0, max, "length"));
            char* s = (char*)__builtin_malloc(n + 1);
            for (unsigned j = 0; j < n; ++j) { s[j] = (char)vs_any<u8>("c"); vs_assume(s[j] != 0); }
            s[n] = 0;
            argv[i][k] = s;
        }
}
template<unsigned N> static void log_record(unsigned max)
{
    int level = vs_any<int>("level");
    unsigned count = (unsigned)vs_concretize(vs_range(0, N, "pairs"));
    char const* argv[N + 1][2];
    fill(argv, count, max);
    ce::os::log(level, (int)count, argv);
    int c = level < 0 ? 0 : level > 7 ? 7 : level;
    static char const letters[] = "FEWNIDSM";
    char head[2] = { letters[c], 0 };
    put(head); put(": {");
    for (unsigned i = 0; i < count; ++i)
    {
        put(i ? ", " : " ");
        put("\""); put(argv[i][0]); put("\": \""); put(argv[i][1]); put("\"");
    }
    put(" }\n");
    compare();
    vs_cover("completes");
}
VS_ENTRY(l3_log_2) { log_record<2>(2); }
VS_ENTRY(l3_log_4) { log_record<4>(1); }
template<unsigned N> static void error_record(unsigned max)
{
    int level = vs_any<int>("level");
    unsigned count = 2 + (unsigned)vs_concretize(vs_range(0, N - 2, "arguments"));
    char const* argv[N + 1][2];
    fill(argv, count, max);
    bool brk = ce::os::error(level, (int)count, argv);
    vs_check(brk == (level == 0), "a break is asked for exactly at level zero");
    put("******** FAILED ********\n");
    put(argv[0][1]); put(": "); put(argv[0][0]); put(": "); put(argv[1][0]); put(": ("); put(argv[1][1]); put(") = (");
    for (unsigned i = 2; i < count; ++i) { if (i > 2) put(", "); put(argv[i][1]); }
    put(")\n");
    compare();
    vs_cover("completes");
}
VS_ENTRY(l3_error_3) { error_record<3>(1); }
VS_ENTRY(l3_error_4) { error_record<4>(1); }
VS_ENTRY(l3_error_none)
{
    int level = vs_any<int>("level");
    char const* argv[2][2] = { { "k", "v" }, { nullptr, nullptr } };
    bool none = vs_any<bool>("none");
    int argc = (int)vs_range(0, 5, "argc");
    if (!none) vs_assume(argc <= 1);
    bool brk = ce::os::error(level, argc, none ? nullptr : argv);
    vs_check(brk == (level == 0), "a break is asked for exactly at level zero");
    put("******** FAILED ********\n");
    compare();
    vs_cover("completes");
}
