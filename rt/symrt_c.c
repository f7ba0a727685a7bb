// C library string functions for the engine.
typedef unsigned long size_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
#include <errno.h>
#include <limits.h>
static unsigned long to_ulong(const char *s, char **end, int base, int *neg, int *any, int *over) {
  const char *p = s;
  unsigned long v = 0;
  *neg = *any = *over = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+' || *p == '-') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  for (;; p++) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (base > 10 && *p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (base > 10 && *p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    *any = 1;
    if (v > (ULONG_MAX - (unsigned long)d) / (unsigned long)base) *over = 1;
    v = v * (unsigned long)base + (unsigned long)d;
  }
  if (end) *end = (char *)(*any ? p : s);
  return v;
}
unsigned long __isoc23_strtoul(const char *s, char **end, int base) {
  int neg, any, over;
  unsigned long v = to_ulong(s, end, base, &neg, &any, &over);
  if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? -v : v;
}
long __isoc23_strtol(const char *s, char **end, int base) {
  int neg, any, over;
  unsigned long v = to_ulong(s, end, base, &neg, &any, &over);
  if (over || v > (neg ? 1UL + LONG_MAX : (unsigned long)LONG_MAX)) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)-v : (long)v;
}
int getpid(void) { return 4242; }
