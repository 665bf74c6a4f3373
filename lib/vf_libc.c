/* libc functions without bodies in the bitcode (symbolic build only) */
#ifdef VF_SYM
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>

static int vf_errno;
int *__errno_location(void) { return &vf_errno; }

static unsigned short vf_ctype[384];
static const unsigned short *vf_ctype_p;
#define BIT(n) ((n) < 8 ? ((1 << (n)) << 8) : ((1 << (n)) >> 8))
const unsigned short **__ctype_b_loc(void)
{
    int c; unsigned f;
    if (vf_ctype_p == NULL) {
        for (c = 0; c < 128; c++) {
            int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
            int xd = dg || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
            int pr = c >= 32 && c < 127, gr = c > 32 && c < 127;
            f = 0;
            if (up) f |= BIT(0);
            if (lo) f |= BIT(1);
            if (up || lo) f |= BIT(2);
            if (dg) f |= BIT(3);
            if (xd) f |= BIT(4);
            if (c == 32 || (c >= 9 && c <= 13)) f |= BIT(5);
            if (pr) f |= BIT(6);
            if (gr) f |= BIT(7);
            if (c == 32 || c == 9) f |= BIT(8);
            if (c < 32 || c == 127) f |= BIT(9);
            if (gr && !(up || lo || dg)) f |= BIT(10);
            if (up || lo || dg) f |= BIT(11);
            vf_ctype[c + 128] = f;
        }
        vf_ctype_p = vf_ctype + 128;
    }
    return &vf_ctype_p;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c | 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c & ~32 : c; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) { a++; b++; }
    return *(unsigned char *) a - *(unsigned char *) b;
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (; n; n--, a++, b++) {
        if (*a != *b) return *(unsigned char *) a - *(unsigned char *) b;
        if (!*a) break;
    }
    return 0;
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (; n; n--, a++, b++) {
        if (tolower(*a) != tolower(*b)) return tolower(*(unsigned char *) a) - tolower(*(unsigned char *) b);
        if (!*a) break;
    }
    return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, SIZE_MAX); }
char *strchr(const char *s, int c) { for (; *s != (char) c; s++) if (!*s) return NULL; return (char *) s; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char) c) return (void *) s; return NULL; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { char *r = d; for (; n && *s; n--) *d++ = *s++; for (; n; n--) *d++ = 0; return r; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (strncmp(h, n, l) == 0) return (char *) h; if (!*h) return NULL; } }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long long strtoll(const char *s, char **e, int base)
{
    unsigned long long v = 0; int neg = 0;
    while (*s == ' ') s++;
    if (*s == '-' || *s == '+') neg = *s++ == '-';
    while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
    if (e) *e = (char *) s;
    return neg ? -v : v;
}
long strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
int atoi(const char *s) { return strtoll(s, NULL, 10); }
int clock_gettime_(void) { return 0; }
void qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
    size_t i, j, k; unsigned char *a = base, t;
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && cmp(a + (j - 1) * size, a + j * size) > 0; j--)
            for (k = 0; k < size; k++) { t = a[j * size + k]; a[j * size + k] = a[(j - 1) * size + k]; a[(j - 1) * size + k] = t; }
}
#endif
