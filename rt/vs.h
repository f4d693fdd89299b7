// Harness API. Under the engine these calls are symbolic; natively they replay recorded inputs (vs_native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t vs_sym(uint32_t bits, const char* name);                 // arbitrary value of `bits` bits
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name);    // arbitrary value in [lo, hi]
void vs_assume(bool c);
void vs_check(bool c, const char* label);
[[noreturn]] void vs_fail(const char* label);
void vs_cover(const char* label);                                 // reachability witness
void vs_observe(uint64_t v);                                      // compared between engine and native run
uint64_t vs_concretize(uint64_t v);
void vs_fork_index(bool on);
[[noreturn]] void vs_stop();
void vs_spawn(void (*fn)(void*), void* arg);
void vs_yield();
void vs_wait(volatile uint32_t* blocked);                         // not runnable while *blocked != 0
void vs_join_all();
void vs_preempt_bound(uint32_t n);
void vs_no_yield(bool on);
uint32_t vs_self();                                               // index of the running thread
// memory model of instrumented harnesses (rt/vs_atomic.cpp)
void vs_at_reg(void* p, uint32_t size);                           // a shared location
void vs_at_spurious(uint32_t n);                                  // weak compare-exchanges that may fail without reason
void vs_at_x86();                                                // accesses that are not atomic do what an x86 processor does
void vs_at_joined();                                              // the main thread has seen everything
}
template<class T> static inline T vs_any(const char* name) { return (T)vs_sym(sizeof(T) * 8, name); }
template<> inline bool vs_any<bool>(const char* name) { return vs_sym(1, name) != 0; }
static inline int64_t vs_srange(int64_t lo, int64_t hi, const char* name) { return lo + (int64_t)vs_range(0, (uint64_t)(hi - lo), name); }

#ifdef VS_NATIVE
struct vs_entry_reg { const char* name; void (*fn)(); vs_entry_reg* next; vs_entry_reg(const char* n, void (*f)()); };
#define VS_ENTRY(NAME) extern "C" void NAME(); static vs_entry_reg reg_##NAME{ #NAME, NAME }; extern "C" void NAME()
#else
#define VS_ENTRY(NAME) extern "C" __attribute__((used)) void NAME()
#endif
