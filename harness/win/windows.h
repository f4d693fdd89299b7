// The part of windows.h that lib/os_win32.cpp and lib/mutex_win32.cpp use, as documented. The functions are defined in the
// harnesses. Only code that is compiled with _WIN32 defined includes this.
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef void* HANDLE; typedef uint32_t DWORD; typedef int32_t LONG; typedef int BOOL; typedef unsigned char BOOLEAN; typedef size_t SIZE_T; typedef long long LONGLONG;
typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
typedef struct _RTL_SRWLOCK { void* Ptr; } SRWLOCK;
#define FALSE 0
#define TRUE 1
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define INFINITE 0xFFFFFFFFu
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_READONLY 1u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000u
#define FILE_FLAG_RANDOM_ACCESS 0x10000000u
#define PAGE_READONLY 2u
#define PAGE_READWRITE 4u
#define PAGE_WRITECOPY 8u
#define FILE_MAP_COPY 1u
#define FILE_MAP_WRITE 2u
#define FILE_MAP_READ 4u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
extern "C" {
void OutputDebugStringA(const char*);
BOOL QueryPerformanceCounter(LARGE_INTEGER*);
BOOL QueryPerformanceFrequency(LARGE_INTEGER*);
DWORD SleepEx(DWORD, BOOL);
void Sleep(DWORD);
HANDLE CreateFileW(const wchar_t*, DWORD, DWORD, void*, DWORD, DWORD, HANDLE);
BOOL CloseHandle(HANDLE);
BOOL GetFileSizeEx(HANDLE, LARGE_INTEGER*);
HANDLE CreateFileMappingW(HANDLE, void*, DWORD, DWORD, DWORD, const wchar_t*);
void* MapViewOfFile(HANDLE, DWORD, DWORD, DWORD, SIZE_T);
BOOL UnmapViewOfFile(const void*);
void* VirtualAlloc(void*, SIZE_T, DWORD, DWORD);
void InitializeSRWLock(SRWLOCK*);
BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK*);
void AcquireSRWLockExclusive(SRWLOCK*);
void ReleaseSRWLockExclusive(SRWLOCK*);
BOOLEAN TryAcquireSRWLockShared(SRWLOCK*);
void AcquireSRWLockShared(SRWLOCK*);
void ReleaseSRWLockShared(SRWLOCK*);
}
