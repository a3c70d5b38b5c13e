// C11: frame protection.
#include "fp.h"
#ifndef MODE
#define MODE 0
#endif
static const size_t MAXP = 16384, OVER = 22;
static size_t need(size_t n) { return n + OVER * (n == 0 ? 1 : (n + MAXP - 1) / MAXP); }
static std::vector<uint8_t> want(Dir &out, const std::vector<uint8_t> &data) {
  std::vector<uint8_t> r;
  size_t at = 0;
  do {
    size_t k = data.size() - at < MAXP ? data.size() - at : MAXP;
    auto rec = out.msg(23, std::vector<uint8_t>(data.begin() + at, data.begin() + at + k));
    r.insert(r.end(), rec.begin(), rec.end());
    at += k;
  } while (at < data.size());
  return r;
}
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
  Suite s = suite(pick("suite", 0, MODE == 1 || MODE == 2 ? 0 : 2));
#if MODE == 0 || MODE == 1
  // contents: small arbitrary ones, or several records with arbitrary bytes around the limits
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Fp f = protector(in, out);
  CHECK(f->MaxRecordSize() == MAXP + OVER, "the largest record is 2^14 bytes and the overhead");
#if MODE == 0
  size_t n = pick("n", 0, NMAX);
  auto data = symvec("data", n);
  size_t a = pick("a", 0, n), b = pick("b", a, n);
#else
  static const uint32_t lens[] = {16383, 16384, 16385, 32768, 32769};
  size_t n = pick_of("n", lens);
  std::vector<uint8_t> data(n);
  for (size_t i = 0; i < n; i++) data[i] = (uint8_t)(i * 7 + (i >> 8));
  static const uint32_t at[] = {0, 16382, 32766};
  for (auto k : at) if (k + 4 <= n) sx_make_symbolic(&data[k], 4, "bytes");
  static const uint32_t cuts[] = {0, 100, 16383, 16384, 16385};
  size_t a = pick_of("a", cuts), b = flag("b") ? n - 1 : a;
  if (a > n) return;
  if (b < a) return;
#endif
  Pieces p;
  p.cut(data.data(), n, a, b);
  CHECK(f->NumberBytesToProtect(n) == need(n) && f->NumberBytesToProtect(p.v) == need(n), "the advertised size is the size of the records");
  auto w = want(out, data);
  CHECK(w.size() == need(n), "harness: size");
  if (flag("own")) {
    size_t room = need(n) + pick("room", 0, 1) * 5;
    Buf rec(room);
    Iovec v = {rec.p, room};
    auto st = f->Protect(p.v, v);
    CHECK(st.ok(), "protecting into a large enough buffer succeeds");
    CHECK(same(rec.p, w.data(), w.size()), "consecutive records whose plaintexts concatenate to the input");
    CHECK(v.iov_base == rec.p && nallocs == 0, "the caller's buffer is used");
    REACH("own buffer");
  } else {
    FResult r = f->Protect(p.v);
    CHECK(r.status.ok() && r.bytes.size() == 1, "protecting succeeds with one buffer");
    CHECK(r.bytes[0].iov_len == w.size() && same(r.bytes[0].iov_base, w.data(), w.size()), "consecutive records whose plaintexts concatenate to the input");
    settle(r.bytes);
    REACH("allocated");
  }
  CHECK(p.unchanged(data.data()), "the input is not modified");
#elif MODE == 2   // any lengths
  cm::length_mode = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Fp f = protector(in, out);
  Buf p1(40000), p2(300);
  size_t n = sym32("n"), m = pick("m", 0, 1) * 300;
  sx_assume(n <= p1.n);
  size_t total = n + m;
  // 17 wide: between one and three records
  FResult r = f->Protect({{p1.p, n}, {nullptr, 0}, {p2.p, m}});
  CHECK(r.status.ok() && r.bytes.size() == 1, "protecting succeeds with one buffer");
  size_t k = total == 0 ? 1 : (total + MAXP - 1) / MAXP;
  CHECK(r.bytes[0].iov_len == total + OVER * k, "the size is the one of the records");
  CHECK(f->NumberBytesToProtect(total) == total + OVER * k, "the advertised size is the size of the records");
  CHECK((size_t)cm::nops == k, "as few records as possible");
  for (size_t i = 0; i < (size_t)cm::nops; i++) CHECK(cm::ops[i].len == (i + 1 < k ? MAXP : total - MAXP * i) + 1, "all records but the last are full");
  settle(r.bytes);
  REACH("protected");
#elif MODE == 3   // advertised sizes for every length
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Fp f = protector(in, out);
  uint64_t n = sym64("n");
  uint32_t k = pick("k", 0, 3);
  uint64_t lo[] = {0, 1, 16384 * 1000ull, 1ull << 40};
  sx_assume(n >= lo[k] && n < (k == 0 ? 1 : lo[k] + (1u << 20)));
  uint64_t rec = n == 0 ? 1 : (n >> 14) + ((n & 16383) != 0);
  CHECK(f->NumberBytesToProtect(n) == n + rec * OVER, "the advertised size is the size of the records");
  CHECK(f->NumberBytesToUnprotect(n) == (n < OVER ? 0 : n - 5), "room needed to unprotect");
  REACH("sizes");
#elif MODE == 4   // failures: library call, record numbers used up, too small buffer
  cm::length_mode = true;
  int how = pick("how", 0, 2);
  static const uint32_t lens[] = {0, 3, 16385};
  size_t n = pick_of("n", lens);
  Dir in(s, 0x40, 3), out(s, 0x90, how == 1 ? ~0ull : 5);
  Fp f = protector(in, out);
  Buf p(n ? n : 1);
  bool own = flag("own");
  if (how == 0) { cm::calls = 0; cm::fail_at = pick("fail", 1, 14); }
  if (how == 1 && flag("used")) { Buf b(23); Iovec v = {b.p, 23}; CHECK(f->Protect({{p.p, n ? 1u : 0}}, v).ok(), "the last record number is used"); }
  size_t room = need(n) - (how == 2 ? 1 + pick("less", 0, 2) * 21 : 0);
  if (how == 2) own = true;
  if (room > need(n)) return;
  Buf b(room ? room : 1);
  Iovec v = {b.p, room};
  FResult r;
  int before = nallocs;
  if (own) r.status = f->Protect({{p.p, n}}, v);
  else r = f->Protect({{p.p, n}});
  bool failed = how == 0 && cm::calls >= cm::fail_at;
  cm::fail_at = 0;
  if (failed || how == 2) CHECK(!r.status.ok(), "a failure is reported");
  if (how == 0 && !failed) CHECK(r.status.ok(), "otherwise protecting succeeds");
  if (!r.status.ok()) { CHECK(r.bytes.empty(), "no buffer is returned on failure"); if (own) REACH("own failed"); else REACH("failed"); }
  if (own) CHECK(nallocs == before, "nothing is allocated for a caller's buffer");
  settle(r.bytes);
#endif
  }
  fp_end();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
