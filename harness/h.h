// Helpers shared by the harnesses.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <string>
#include <vector>
#include "cm.h"
#include "sx.h"

inline uint8_t sym8(const char *n) { uint8_t v; sx_make_symbolic(&v, 1, n); return v; }
inline uint16_t sym16(const char *n) { uint16_t v; sx_make_symbolic(&v, 2, n); return v; }
inline uint32_t sym32(const char *n) { uint32_t v; sx_make_symbolic(&v, 4, n); return v; }
inline uint64_t sym64(const char *n) { uint64_t v; sx_make_symbolic(&v, 8, n); return v; }
// Any value in [lo, hi]; each one is explored on its own path.
inline uint32_t pick(const char *n, uint32_t lo, uint32_t hi) { return sx_choose(n, lo, hi); }
template <size_t N>
inline uint32_t pick_of(const char *n, const uint32_t (&t)[N]) { return t[pick(n, 0, N - 1)]; }
inline bool flag(const char *n) { return pick(n, 0, 1) != 0; }
inline std::vector<uint8_t> symvec(const char *n, size_t len) {
  std::vector<uint8_t> v(len);
  if (len) sx_make_symbolic(v.data(), len, n);
  return v;
}
inline std::string symstr(const char *n, size_t len) {
  std::string v(len, '\0');
  if (len) sx_make_symbolic(&v[0], len, n);
  return v;
}
// A heap buffer of exactly n bytes: any access beyond it is caught.
struct Buf {
  uint8_t *p;
  size_t n;
  explicit Buf(size_t len, int fill = 0xA5) : p((uint8_t *)malloc(len)), n(len) { if (len) memset(p, fill, len); }
  Buf(const Buf &) = delete;
  Buf(Buf &&o) : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  ~Buf() { free(p); }
  void symbolic(const char *name) { if (n) sx_make_symbolic(p, n, name); }
  bool all(uint8_t v) const {
    unsigned d = 0;
    for (size_t i = 0; i < n; i++) d |= p[i] ^ v;
    return d == 0;
  }
};
inline bool same(const void *a, const void *b, size_t n) { return n == 0 || sx_bytes_equal(a, b, n); }
inline bool zeros(const uint8_t *p, size_t n) {
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= p[i];
  return d == 0;
}
inline uint64_t fold(const uint8_t *p, size_t n) {
  uint64_t h = n;
  for (size_t i = 0; i < n; i++) h = (h << 5 | h >> 59) ^ p[i];
  return h;
}
