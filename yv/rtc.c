/* Plain C models of libc functions (symbolic build only; trusted base). */
#include <stddef.h>
#include <stdint.h>
typedef unsigned char uch;
void* malloc(size_t);

int yv_omp_threads = 1;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n && *a && *a == *b; n--) { a++; b++; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strchr(const char* s, int c) { for (; *s; s++) if (*s == (char)c) return (char*)s; return c ? 0 : (char*)s; }
int posix_memalign(void** p, size_t al, size_t n) { *p = malloc(n); return 0; }
void* memcpy(void*, const void*, size_t);
void qsort(void* b, size_t n, size_t s, int (*cmp)(const void*, const void*)) {
    char* a = (char*)b; char t[256];
    for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * s, a + j * s) > 0; j--) { memcpy(t, a + j * s, s); memcpy(a + j * s, a + (j - 1) * s, s); memcpy(a + (j - 1) * s, t, s); }
    
}
long strtol(const char* s, char** e, int base) {
    const char* p = s; int neg = 0; long v = 0; const char* st;
    while (*p == ' ' || *p == '\t' || *p == '\n') p++;
    if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    st = p;
    for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0');
    if (p == st) { if (e) *e = (char*)s; return 0; }
    if (e) *e = (char*)p;
    (void)base;
    return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int yv_errno; int* __errno_location() { return &yv_errno; }
/* Monotonic clock: one second per reading. */
int clock_gettime(int id, long* ts) { static long now = 1000; ts[0] = now++; ts[1] = 0; (void)id; return 0; }
int madvise(void* p, unsigned long n, int a) { (void)p; (void)n; (void)a; return 0; }
