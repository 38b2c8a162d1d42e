// C library functions for the symbolic build ("C" locale). Part of the trusted base.
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#undef errno
#undef isdigit
#undef islower
#undef isupper
#undef isalpha
#undef isalnum
#undef isspace
#undef isprint
#undef ispunct
#undef isxdigit
#undef tolower
#undef toupper
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) break;
  }
  return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; }
}
void *memrchr(const void *s, int c, size_t n) { for (const char *p = (const char *)s + n; n--;) if (*--p == (char)c) return (void *)p; return 0; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) {
  for (size_t i = 0; i + nn <= hn; i++) if (memcmp((const char *)h + i, n, nn) == 0) return (char *)h + i;
  return 0;
}
static int vp_errno;
int *__errno_location() { return &vp_errno; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) || isupper(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != 32 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
unsigned long strtoul(const char *s, char **e, int base) {
  const char *b = s;
  while (isspace((unsigned char)*s)) s++;
  bool neg = false;
  if (*s == '+' || *s == '-') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; }
  if (base == 0) base = *s == '0' ? 8 : 10;
  unsigned long r = 0;
  bool any = false, ovf = false;
  for (;; s++) {
    int c = (unsigned char)*s, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (r > (~0ul - d) / base) ovf = true;
    r = r * base + d;
  }
  if (e) *e = (char *)(any ? s : b);
  if (ovf) { vp_errno = ERANGE; return ~0ul; }
  return neg ? -r : r;
}
long strtol(const char *s, char **e, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = *p == '-';
  unsigned long r = strtoul(s, e, base);
  if (neg) { if ((long)r > 0) { vp_errno = ERANGE; return (long)(1ul << 63); } return (long)r; }
  if ((long)r < 0) { vp_errno = ERANGE; return (long)(~0ul >> 1); }
  return (long)r;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = (char *)base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
      for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; }
}

static int vp_fmt(char *d, size_t cap, const char *f, __builtin_va_list ap) {
  size_t n = 0;
#define PUT(c) do { if (n + 1 < cap) d[n] = (c); n++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++;
    int zero = 0, w = 0, l = 0;
    if (*f == '0') { zero = 1; f++; }
    while (isdigit(*f)) w = w * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l = 1; f++; }
    char buf[24];
    int k = 24;
    const char *s = 0;
    size_t len;
    if (*f == '%') { PUT('%'); continue; }
    if (*f == 'c') { buf[--k] = (char)__builtin_va_arg(ap, int); }
    else if (*f == 's') s = __builtin_va_arg(ap, const char *);
    else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') {
      unsigned b = *f == 'x' ? 16 : 10;
      int sg = *f == 'd' || *f == 'i';
      unsigned long v = l ? __builtin_va_arg(ap, unsigned long) : sg ? (unsigned long)(long)__builtin_va_arg(ap, int) : __builtin_va_arg(ap, unsigned);
      int neg = sg && (long)v < 0;
      if (neg) v = -v;
      do buf[--k] = "0123456789abcdef"[v % b]; while (v /= b);
      if (neg) buf[--k] = '-';
    } else abort();
    if (!s) { s = buf + k; len = 24 - k; } else len = strlen(s);
    for (size_t i = len; i < (size_t)w; i++) PUT(zero ? '0' : ' ');
    for (size_t i = 0; i < len; i++) PUT(s[i]);
  }
  if (cap) d[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int vsnprintf(char *d, size_t cap, const char *f, __builtin_va_list ap) { return vp_fmt(d, cap, f, ap); }
int snprintf(char *d, size_t cap, const char *f, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, f);
  int r = vp_fmt(d, cap, f, ap);
  __builtin_va_end(ap);
  return r;
}
int sprintf(char *d, const char *f, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, f);
  int r = vp_fmt(d, ~0ul, f, ap);
  __builtin_va_end(ap);
  return r;
}
