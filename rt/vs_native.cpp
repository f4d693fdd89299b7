// Native runtime: replays recorded inputs against the real code. usage: prog ENTRY INPUTFILE
// exit 42: a check failed; 77: an assumption does not hold; 78: inputs exhausted; 0: ran to the end.
#include "vs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <vector>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
static vs_entry_reg* head;
vs_entry_reg::vs_entry_reg(const char* n, void (*f)()) : name(n), fn(f), next(head) { head = this; }
static std::vector<uint64_t>& in() { static std::vector<uint64_t> v; return v; }
static size_t pos; static bool defz;
static void leave(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static uint64_t take(const char*) { if (pos >= in().size()) { if (defz) { ++pos; return 0; } printf("INPUTS-EXHAUSTED\n"); leave(78); } return in()[pos++]; }

struct thr { ucontext_t c; bool done, joining; volatile uint32_t* wait; char* stack; void (*fn)(void*); void* arg; };
static std::vector<thr*> ts; static unsigned cur, switches, maxsw = 1000000; static bool noy;
static void init() { if (ts.empty()) { auto* t = new thr{}; ts.push_back(t); } }
static bool runnable(unsigned i) { thr& t = *ts[i]; if (t.done) return false; if (t.joining) { for (unsigned k = 0; k < ts.size(); ++k) if (k != i && !ts[k]->done) return false; return true; } if (t.wait) return *t.wait == 0; return true; }
static void sched(bool forced)
{
    std::vector<unsigned> r; for (unsigned i = 0; i < ts.size(); ++i) if (runnable(i)) r.push_back(i);
    if (r.empty()) { printf("CHECK-FAILED deadlock\n"); leave(42); }
    bool ok = false; for (auto k : r) ok = ok || k == cur; if (!ok) forced = true;
    if (!forced && switches >= maxsw) return;
    unsigned p = r[0]; if (r.size() > 1) { uint64_t v = take("sched"); if (v >= r.size()) leave(77); p = r[v]; }
    if (!forced && p != cur) ++switches;
    unsigned o = cur; cur = p; ts[p]->wait = nullptr; ts[p]->joining = false;
    if (o != p) swapcontext(&ts[o]->c, &ts[p]->c);
}
static void tramp() { thr* t = ts[cur]; t->fn(t->arg); t->done = true; sched(true); }

extern "C" {
uint64_t vs_sym(uint32_t bits, const char* name) { uint64_t v = take(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name) { uint64_t v = take(name); if (defz && (v < lo || v > hi)) v = lo; if (v < lo || v > hi) { printf("RANGE %s\n", name); leave(77); } return v; }
void vs_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); leave(77); } }
void vs_check(bool c, const char* l) { if (!c) { printf("CHECK-FAILED %s\n", l); leave(42); } }
void vs_fail(const char* l) { printf("CHECK-FAILED %s\n", l); fflush(stdout); leave(42); __builtin_unreachable(); }
void vs_cover(const char*) { }
void vs_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t vs_concretize(uint64_t v) { return v; }
void vs_fork_index(bool) { }
void vs_stop() { printf("DONE\n"); leave(0); __builtin_unreachable(); }
void vs_preempt_bound(uint32_t n) { maxsw = n; }
void vs_no_yield(bool on) { noy = on; }
void vs_spawn(void (*fn)(void*), void* arg)
{
    init(); auto* t = new thr{}; t->fn = fn; t->arg = arg; t->stack = (char*)malloc(1 << 20); getcontext(&t->c); t->c.uc_stack.ss_sp = t->stack; t->c.uc_stack.ss_size = 1 << 20; t->c.uc_link = nullptr; makecontext(&t->c, tramp, 0); ts.push_back(t);
}
void vs_yield() { init(); if (ts.size() > 1 && !noy) sched(false); }
void vs_wait(volatile uint32_t* b) { init(); ts[cur]->wait = b; sched(false); }
uint32_t vs_self() { return cur; }
void vs_join_all() { init(); ts[cur]->joining = true; sched(true); }
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2; defz = argc > 3;
    FILE* f = fopen(argv[2], "r"); if (!f) return 2; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) in().push_back(v); fclose(f);
    for (auto* e = head; e; e = e->next) if (!strcmp(e->name, argv[1])) { e->fn(); printf("DONE\n"); leave(0); }
    return 2;
}
