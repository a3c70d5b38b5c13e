// libc leftovers as source for the executor (no system headers: plain C types).
typedef unsigned long size_t;
void *malloc(size_t); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); size_t strlen(const char *);
void sx_check_range(const void *p, size_t n, int write);
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; }
  return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
int puts(const char *s) { return 1; }
int putchar(int c) { return c; }
int printf(const char *s, ...) { return 0; }
int fprintf(void *f, const char *s, ...) { return 0; }
int fflush(void *x) { return 0; }
size_t fwrite(const void *p, size_t s, size_t n, void *x) { if (s && n) sx_check_range(p, s * n, 0); return n; }
// environment: one optional variable, set by the harness
const char *sx_env_name = 0;
const char *sx_env_value = 0;
char *getenv(const char *n) { return sx_env_name && strcmp(n, sx_env_name) == 0 ? (char *)sx_env_value : 0; }
char *secure_getenv(const char *n) { return getenv(n); }
int __errno_v;
int *__errno_location(void) { return &__errno_v; }
