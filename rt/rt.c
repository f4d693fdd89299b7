// C library functions used by the code under test, for the engine (compiled to bitcode, -fno-builtin).
typedef unsigned long size_t;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char* p = a; const unsigned char* q = b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
void* memcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; ++i) ((char*)d)[i] = ((const char*)s)[i]; return d; }
void* memset(void* d, int c, size_t n) { for (size_t i = 0; i < n; ++i) ((char*)d)[i] = (char)c; return d; }
void* memmove(void* d, const void* s, size_t n) { char* p = d; const char* q = s; if (p < q) for (size_t i = 0; i < n; ++i) p[i] = q[i]; else for (size_t i = n; i--;) p[i] = q[i]; return d; }
