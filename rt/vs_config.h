// CE_USER_INCLUDE for harnesses: a failed CE_ASSERT / CE_VERIFY is reported, logging is silent.
#pragma once
extern "C" [[noreturn]] void vs_fail(const char* label);
#ifndef VS_KEEP_HOOKS
inline bool vs_ce_error_hook() { vs_fail("CE_ASSERT/CE_ERROR raised"); return false; }
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) (vs_ce_error_hook())
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) ((void)0)
#ifndef VS_NATIVE
extern "C" { __attribute__((used)) inline int vs_fast_assert() { return 1; } }
#endif
#endif
