// O01 time and text primitives of the POSIX back end, over recording stand-ins for the system calls.
#include "vs.h"
#include <time.h>
#include <unistd.h>
#include <sys/types.h>
using u8 = unsigned char;

static int clock_calls, clock_id, clock_result, sleep_calls, write_calls, write_fd;
static struct timespec clock_value, sleep_value;
static char const* write_data; static size_t write_size;
static int fake_clock_gettime(clockid_t id, struct timespec* t) { ++clock_calls; clock_id = (int)id; if (clock_result == 0) *t = clock_value; return clock_result; }
static int fake_nanosleep(struct timespec const* t, struct timespec*) { ++sleep_calls; sleep_value = *t; return 0; }
static int fake_clock_nanosleep(clockid_t, int, struct timespec const* t, struct timespec*) { ++sleep_calls; sleep_value = *t; return 0; }
static ssize_t fake_write(int fd, void const* p, size_t n) { ++write_calls; write_fd = fd; write_data = (char const*)p; write_size = n; return (ssize_t)n; }
#define clock_gettime fake_clock_gettime
#define nanosleep fake_nanosleep
#define clock_nanosleep fake_clock_nanosleep
#define write fake_write
#include "os_posix.cpp"
#undef write

VS_ENTRY(o_now)
{
    int64_t s = (int64_t)vs_range(0, 9000000000ull, "seconds"), n = (int64_t)vs_range(0, 999999999, "nanoseconds");
    clock_value.tv_sec = s; clock_value.tv_nsec = n;
    uint64_t got = ce::os::monotonic_timestamp();
    vs_check(clock_calls == 1 && (clock_id == CLOCK_MONOTONIC_RAW || clock_id == CLOCK_MONOTONIC || clock_id == CLOCK_BOOTTIME), "the monotonic clock is read once");
    vs_check(got == (uint64_t)s * 1000000000ull + (uint64_t)n, "seconds and nanoseconds are both counted");
    vs_check(ce::os::monotonic_frequency() == 1000000000ull, "the timestamp's unit is the reported frequency");
    vs_cover("completes");
}
VS_ENTRY(o_now_fails)
{
    clock_result = vs_any<int>("result");
    vs_assume(clock_result != 0);
    vs_check(ce::os::monotonic_timestamp() == 0, "zero when the system reports an error");
    vs_cover("completes");
}
VS_ENTRY(o_sleep)
{
    uint64_t ns = vs_any<uint64_t>("duration");
    ce::os::sleep_ns(ns);
    vs_check(sleep_calls == 1, "one sleep");
    vs_check((uint64_t)sleep_value.tv_nsec < 1000000000ull, "the nanosecond part is below one second");
    vs_check(sleep_value.tv_sec >= 0 && (uint64_t)sleep_value.tv_sec <= 18446744073ull, "the seconds are those of the duration");
    vs_check((uint64_t)sleep_value.tv_sec * 1000000000ull + (uint64_t)sleep_value.tv_nsec == ns, "exactly the requested duration");
    vs_cover("completes");
}
template<unsigned L> static void text()
{
    bool none = vs_any<bool>("null");
    unsigned n = (unsigned)vs_concretize(vs_range(0, L, "length"));
    char* s = (char*)__builtin_malloc(n + 1);
    char keep[L + 1];
    for (unsigned i = 0; i < n; ++i) { keep[i] = s[i] = (char)vs_any<u8>("c"); vs_assume(s[i] != 0); }
    s[n] = 0;
    ce::os::debug_out(none ? nullptr : s);
    if (none) vs_check(write_calls == 0, "a null text is ignored");
    else
    {
        vs_check(write_calls == 1 || (n == 0 && write_calls == 0), "the text is written once");
        if (write_calls) 
        {
            vs_check(write_size == n, "all of the text and nothing else");
            for (unsigned i = 0; i < n; ++i) vs_check(write_data[i] == keep[i], "the text's bytes");
            vs_check(write_fd == STDERR_FILENO, "debug text goes to the error stream");
        }
    }
    vs_cover("completes");
}
VS_ENTRY(o_text) { text<8>(); }
VS_ENTRY(o_text_long) { text<24>(); }
VS_ENTRY(o_files)
{
    ce::uint8_t one[4];
    ce::span<ce::uint8_t const> s{ (size_t)vs_any<uint64_t>("size"), one };
    unsigned which = (unsigned)vs_concretize(vs_range(0, 2, "which"));
    bool ok = which == 0 ? ce::os::map_span(s, "path") : which == 1 ? ce::os::map_span(s, ce::os::file_t{ }) : ce::os::unmap_span(s);
    if (!ok) vs_check(s.size == 0 && s.data == nullptr, "a failed mapping leaves an empty span");
    else if (which < 2) vs_check(s.data != nullptr, "a mapping that succeeds shows data");
    ce::os::file_t f{ };
    if (ce::os::open_file(f, "path")) vs_check(f.os_handle != nullptr, "a file that is opened has a handle");
    ce::os::file_t none{ };
    vs_check(!ce::os::close_file(none), "a file that is not open cannot be closed");
    vs_cover("completes");
}
