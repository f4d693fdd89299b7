// W01: the Windows operating-system functions (lib/os_win32.cpp). The system's functions are recorded stand-ins that answer
// anything their documentation allows.
#include "vs.h"
#include <stdlib.h>
#include <windows.h>
#define _WIN32 1
#include "os_win32.cpp"
#undef _WIN32
using namespace ce;

extern "C" void* _alloca(ce::size_t n) { return malloc(n ? n : 1); }
static uint64_t tag(const void* p) { return (uint64_t)(uintptr_t)p; }
static HANDLE handle(uint64_t v) { return (HANDLE)(uintptr_t)v; }

// what the system was asked
static char16_t opened[64]; static unsigned opened_n, opens, closes, maps, views, unmaps, sizes; static HANDLE closed[4], file_h, map_h; static uint64_t file_size, view_size; static bool size_ok, map_ok; static uint8_t* view_p; static const void* unmapped;
static bool close_ok, unmap_ok; static const char* said; static DWORD slept; static BOOL alert; static unsigned sleeps; static uint64_t asked_size; static uint8_t store[4];
extern "C" {
void OutputDebugStringA(const char* s) { said = s; }
static int64_t ticks, rate;
BOOL QueryPerformanceCounter(LARGE_INTEGER* n) { n->QuadPart = ticks; return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* n) { n->QuadPart = rate; return 1; }
DWORD SleepEx(DWORD ms, BOOL a) { slept = ms; alert = a; ++sleeps; return 0; }
void Sleep(DWORD ms) { slept = ms; alert = 0; ++sleeps; }
HANDLE CreateFileW(const wchar_t* p, DWORD access, DWORD share, void* security, DWORD how, DWORD, HANDLE)
{
    ++opens; auto* s = reinterpret_cast<const char16_t*>(p); opened_n = 0; while (s[opened_n] && opened_n < 63) { opened[opened_n] = s[opened_n]; ++opened_n; } opened[opened_n] = 0;
    vs_check(access == GENERIC_READ, "the file is opened for reading only"); vs_check((share & FILE_SHARE_READ) != 0, "others may read the file"); vs_check(how == OPEN_EXISTING, "opening a file creates none"); vs_check(security == nullptr, "nothing is inherited");
    return file_h;
}
BOOL CloseHandle(HANDLE h) { if (closes < 4) closed[closes] = h; ++closes; return close_ok; }
BOOL GetFileSizeEx(HANDLE h, LARGE_INTEGER* n) { ++sizes; if (h == INVALID_HANDLE_VALUE || !size_ok) return 0; vs_check(h == file_h, "the size of the given file"); n->QuadPart = (LONGLONG)file_size; return 1; }
HANDLE CreateFileMappingW(HANDLE h, void*, DWORD protect, DWORD hi, DWORD lo, const wchar_t* name)
{
    ++maps; vs_check(h == file_h, "the given file is mapped"); vs_check(protect == PAGE_READONLY, "mapped for reading only"); uint64_t n = (uint64_t)hi << 32 | lo; vs_check(n == file_size || n == 0, "the whole file is mapped"); vs_check(name == nullptr, "the mapping has no name");
    return map_ok && file_size != 0 ? map_h : nullptr;
}
void* MapViewOfFile(HANDLE h, DWORD access, DWORD hi, DWORD lo, SIZE_T n) { ++views; view_size = n; vs_check(h == map_h, "the view of the mapping"); vs_check(access == FILE_MAP_READ, "viewed for reading only"); vs_check((hi | lo) == 0, "from the start of the file"); vs_check(n == file_size || n == 0, "the whole file is viewed"); return view_p; }
BOOL UnmapViewOfFile(const void* p) { unmapped = p; ++unmaps; return unmap_ok; }
void* VirtualAlloc(void* at, SIZE_T n, DWORD type, DWORD protect) { vs_check(at == nullptr, "anywhere"); vs_check(type == (MEM_COMMIT | MEM_RESERVE), "memory to use at once"); vs_check(protect == PAGE_READWRITE, "readable and writable"); asked_size = n; return view_p; }
}

// text of any code points
struct text_t { char u8[48]; unsigned n8 = 0; char16_t u16[24]; unsigned n16 = 0; };
static void put(text_t& t, uint32_t c)
{
    unsigned k = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; k = (unsigned)vs_concretize(k);
    if (k == 1) t.u8[t.n8++] = (char)c;
    else { t.u8[t.n8++] = (char)((k == 2 ? 0xc0 : k == 3 ? 0xe0 : 0xf0) | c >> 6 * (k - 1)); for (unsigned i = k - 1; i-- > 0;) t.u8[t.n8++] = (char)(0x80 | (c >> 6 * i & 63)); }
    if (k < 4) t.u16[t.n16++] = (char16_t)c; else { t.u16[t.n16++] = (char16_t)(0xd800 + ((c - 0x10000) >> 10)); t.u16[t.n16++] = (char16_t)(0xdc00 + ((c - 0x10000) & 0x3ff)); }
}
static uint32_t point(bool zero) { uint32_t c = (uint32_t)vs_range(zero ? 0 : 1, 0x10ffff, "code point"); vs_assume(!((c >= 0xd800) & (c < 0xe000))); return c; }
template<unsigned K> static void utf()
{
    text_t t; for (unsigned i = 0; i < K; ++i) put(t, point(true));
    char* src = (char*)malloc(t.n8 + !t.n8); for (unsigned i = 0; i < t.n8; ++i) src[i] = t.u8[i];
    auto* dst = (char16_t*)malloc(2 * (t.n16 + !t.n16)); char16_t* end = to_utf16(dst, t.n8, src);
    vs_check((unsigned)(end - dst) == t.n16, "as many units as the text has"); vs_observe((uint64_t)(end - dst));
    for (unsigned i = 0; i < t.n16; ++i) { vs_observe(dst[i]); vs_check(dst[i] == t.u16[i], "every unit of the text"); } vs_cover("completes");
}
VS_ENTRY(w_utf_0) { utf<0>(); }
VS_ENTRY(w_utf_1) { utf<1>(); }
VS_ENTRY(w_utf_2) { utf<2>(); }
VS_ENTRY(w_utf_3) { utf<3>(); }
VS_ENTRY(w_utf_4) { utf<4>(); }
static char* path_of(text_t& t, unsigned k) { for (unsigned i = 0; i < k; ++i) put(t, point(false)); char* s = (char*)malloc(t.n8 + 1); for (unsigned i = 0; i < t.n8; ++i) s[i] = t.u8[i]; s[t.n8] = 0; return s; }
static void same_path(text_t const& t) { vs_check(opens == 1 && opened_n == t.n16, "the path has as many units as the text"); for (unsigned i = 0; i < t.n16; ++i) vs_check(opened[i] == t.u16[i], "every unit of the path"); }
VS_ENTRY(w_open)
{
    text_t t; char* s = path_of(t, (unsigned)vs_concretize(vs_range(0, 2, "length"))); file_h = handle(vs_any<uint64_t>("handle"));
    os::file_t f = os::open_file(s); same_path(t); vs_check(f.os_handle == file_h, "the system's handle"); vs_check(closes == 0, "the file stays open"); vs_cover("completes");
}
VS_ENTRY(w_open_into)
{
    text_t t; char* s = path_of(t, 1); file_h = handle(vs_any<uint64_t>("handle")); os::file_t f{ handle(3) };
    bool ok = os::open_file(f, s); same_path(t); vs_check(f.os_handle == file_h, "the system's handle"); vs_check(ok == (file_h != INVALID_HANDLE_VALUE), "opening fails exactly when the system fails"); vs_cover("completes");
}
VS_ENTRY(w_close)
{
    HANDLE h = handle(vs_any<uint64_t>("handle")); os::file_t f{ h }; close_ok = vs_any<bool>("close");
    bool ok = os::close_file(f); vs_check(ok == close_ok && closes == 1 && closed[0] == h, "exactly the given file is closed"); vs_check(f.os_handle == INVALID_HANDLE_VALUE, "a closed file is no file"); vs_cover("completes");
}
static void any_system()
{
    file_h = handle(vs_range(1, 1000, "file")); map_h = handle(vs_range(1001, 2000, "mapping")); file_size = vs_range(0, INT64_MAX, "size"); size_ok = vs_any<bool>("size works"); map_ok = vs_any<bool>("mapping works"); view_p = vs_any<bool>("view works") ? store : nullptr; close_ok = vs_any<bool>("close works"); unmap_ok = vs_any<bool>("unmap works");
}
static void mapped(span<uint8_t const> const& s, bool ok, bool open)
{
    bool can = open && size_ok && map_ok && file_size != 0 && view_p;
    vs_check(ok == can, "mapping fails exactly when the system fails");
    if (can) vs_check(s.size == file_size && s.data == view_p, "the span is the whole file"); else vs_check(s.size == 0 && s.data == nullptr, "nothing is shown when mapping fails");
    unsigned n = 0; for (unsigned i = 0; i < closes && i < 4; ++i) n += closed[i] == map_h; vs_check(n == (open && size_ok && map_ok && file_size != 0 ? 1u : 0u), "the mapping's handle is closed once"); vs_check(unmaps == 0, "the view stays");
    if (ok) vs_cover("maps"); vs_cover("completes");
}
VS_ENTRY(w_map)
{
    any_system(); span<uint8_t const> s{ 7, store }; os::file_t f{ file_h }; bool ok = os::map_span(s, f); mapped(s, ok, true); unsigned n = 0; for (unsigned i = 0; i < closes && i < 4; ++i) n += closed[i] == file_h; vs_check(n == 0, "the file stays open");
}
VS_ENTRY(w_map_path)
{
    any_system(); bool open = vs_any<bool>("open works"); if (!open) file_h = INVALID_HANDLE_VALUE; text_t t; char* p = path_of(t, 1); span<uint8_t const> s{ 7, store }; bool ok = os::map_span(s, p); same_path(t); mapped(s, ok, open);
    unsigned n = 0; for (unsigned i = 0; i < closes && i < 4; ++i) n += closed[i] == file_h; if (open) vs_check(n == 1, "the file is closed once");
}
VS_ENTRY(w_map_items)
{
    any_system(); bool open = vs_any<bool>("open works"); if (!open) file_h = INVALID_HANDLE_VALUE; text_t t; char* p = path_of(t, 1); auto s = os::map_span<uint32_t>(p); bool can = open && size_ok && map_ok && file_size != 0 && view_p;
    vs_check(s.size == (can ? file_size / 4 : 0) && (const void*)s.data == (can ? store : nullptr), "whole items of the file"); vs_cover("completes");
}
VS_ENTRY(w_unmap) { any_system(); unsigned k = (unsigned)vs_range(0, 3, "at"); span<uint8_t const> s{ vs_any<uint64_t>("size"), store + k }; bool ok = os::unmap_span(s); vs_check(unmaps == 1 && unmapped == store + k, "exactly the given view is unmapped"); vs_check(s.size == 0 && s.data == nullptr, "an unmapped span is empty"); vs_check(ok == unmap_ok, "as the system answers"); vs_cover("completes"); }
VS_ENTRY(w_time) { ticks = vs_any<int64_t>("ticks"); rate = vs_any<int64_t>("rate"); vs_check(os::monotonic_timestamp() == (uint64_t)ticks, "the system's counter"); vs_check(os::monotonic_frequency() == (uint64_t)rate, "the system's rate"); vs_cover("completes"); }
VS_ENTRY(w_sleep)
{
    uint64_t ns = vs_any<uint64_t>("ns"); os::sleep_ns(ns); uint64_t q = slept; vs_observe(slept); vs_check(sleeps == 1 && !alert, "one sleep that nothing cuts short");
    vs_check((ns == 0) == (slept == 0), "no sleep for no time");
    // milliseconds, rounded down but for the first, as long as they fit
    vs_check((slept == ~0u) | (ns == 0) | (q * 1000000 <= ns) | (q == 1), "not longer than asked, but for the shortest"); vs_check((slept == ~0u) | ((q + 1) * 1000000 > ns), "less than a millisecond shorter than asked"); vs_check((slept != ~0u) | (ns >= 0xffffffffull * 1000000), "the longest sleep only for such times"); vs_cover("completes");
}
VS_ENTRY(w_debug) { const char* s = (const char*)(uintptr_t)vs_any<uint64_t>("text"); os::debug_out(s); vs_check(said == s, "the text as it is"); vs_cover("completes"); }
VS_ENTRY(w_alloc) { view_p = vs_any<bool>("works") ? store : nullptr; uint64_t n = vs_any<uint64_t>("size"); uint8_t* p = os::virtual_alloc(n); vs_check(p == view_p && asked_size == n, "as much memory as asked, where the system puts it"); vs_cover("completes"); }
