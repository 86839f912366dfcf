// C string functions over possibly symbolic bytes; compiled with the instrumentation.
#include <cstddef>
extern "C" {
int _sym_any(const void *, unsigned long);
int sxl_memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
void *sxl_memchr(const void *a, int c, size_t n) { const unsigned char *p = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
size_t sxl_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *sxl_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
}
