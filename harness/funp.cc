// C12: frame unprotection.
#define FP_RECORD
#include "fp.h"
#ifndef MODE
#define MODE 0
#endif
// bytes[0..n) in buffers cut at c[0..k), exactly sized; optional empty ones (null or not)
struct Cuts {
  Pieces p;
  Cuts(const std::vector<uint8_t> &b, const size_t *c, int k, int empty) {
    size_t at = 0;
    if (empty == 1) p.v.push_back({nullptr, 0});
    for (int i = 0; i <= k; i++) {
      size_t e = i < k ? c[i] : b.size();
      if (e > at || empty == 2) p.add(b.data() + at, e - at, false);
      if (empty == 1) p.v.push_back({nullptr, 0});
      at = e;
    }
  }
};
static FResult run(Fp &f, const std::vector<Iovec> &v, bool single, size_t total) {
  FResult r;
  if (single) {
    size_t room = f->NumberBytesToUnprotect(v);
    Buf out(room ? room : 1);
    Iovec o = {out.p, room};
    r.status = f->Unprotect(v, o);
    CHECK(o.iov_base == out.p && o.iov_len <= room, "the caller's buffer is used");
    CHECK(nallocs == 0, "nothing is allocated for a caller's buffer");
    if (r.status.ok()) { Iovec keep = fp_alloc(o.iov_len); if (o.iov_len) memcpy(keep.iov_base, out.p, o.iov_len); r.bytes.push_back(keep); }
  } else {
    r = f->Unprotect(v);
  }
  sx_observe("ok", r.status.ok());
  if (!r.status.ok()) CHECK(r.bytes.empty(), "no plaintext is returned on failure");
  settle(r.bytes);
  return r;
}
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
  Suite s = suite(pick("suite", 0, SUITES));
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Fp f = protector(in, out);
  bool single = flag("single");
#if MODE == 0   // genuine records, whole or not
  int k = pick("records", 1, RECS);
  std::vector<uint8_t> bytes;
  std::vector<std::vector<uint8_t>> data;
  for (int i = 0; i < k; i++) {
    data.push_back(symvec("data", pick("n", 0, 1) * 2));
    auto r = in.msg(23, data.back());
    bytes.insert(bytes.end(), r.begin(), r.end());
  }
  size_t full = bytes.size();
  int how = pick("how", 0, 4);   // whole, shortened, junk after, changed tag, changed header
  bool good = how == 0;
  static const uint32_t less[] = {1, 2, 17, 20};
  static const uint32_t more[] = {1, 4, 5, 21, 22};
  if (how == 1) bytes.resize(full - pick_of("less", less));
  if (how == 2) { auto j = symvec("junk", pick_of("more", more)); bytes.insert(bytes.end(), j.begin(), j.end()); }
  if (how == 3) { uint8_t x = sym8("flip"); sx_assume(x != 0); bytes.back() ^= x; }
  if (how == 4) { uint8_t x = sym8("flip"); sx_assume(x != 0); bytes[full - data.back().size() - 22 + pick("pos", 0, 4)] ^= x; }
  static const uint32_t cutsat[] = {0, 1, 5, 6, 22, 24};
  size_t c[2] = {6, 9};
  int empty = 0;
  if (how < 2) {
    c[0] = pick_of("c0", cutsat);
    c[1] = c[0] + pick("c1", 0, 1) * 3;
    empty = pick("empty", 0, 2);
  }
  if (c[1] > bytes.size()) return;
  Cuts q(bytes, c, 2, empty);
  FResult r = run(f, q.p.v, single, bytes.size());
  bool ok = r.status.ok();
  if (how == 2) {
    // junk authenticates nowhere, so it never forms a record
    CHECK(!ok, "trailing bytes that do not form a record are an error");
    REACH("junk");
  } else if (single && k != 1) {
    CHECK(!ok, "the single-record form rejects anything but one record");
    REACH("opt:two for single");
  } else {
    CHECK(ok == good, "complete records are accepted; a partial, malformed or forged one is an error");
    if (ok) {
      CHECK(r.bytes.size() == (size_t)k, "one plaintext per record");
      for (int i = 0; i < k; i++) CHECK(r.bytes[i].iov_len == data[i].size() && same(r.bytes[i].iov_base, data[i].data(), data[i].size()), "the plaintexts in order");
      REACH("accepted");
    } else REACH("rejected");
  }
  CHECK(q.p.unchanged(bytes.data()), "the input is not modified");
#elif MODE == 1   // any bytes, any verdict: structure and memory
  cm::verdict = 1;
  static const uint32_t lens[] = {0, 1, 4, 5, 21, 22, 24, 43, 44};
  size_t n = pick_of("n", lens);
  std::vector<uint8_t> bytes;
  if (n <= 24) bytes = symvec("bytes", n);
  else {   // two genuine records behind arbitrary headers
    for (int i = 0; i < 2; i++) { auto r = in.msg(23, std::vector<uint8_t>()); bytes.insert(bytes.end(), r.begin(), r.end()); }
    sx_make_symbolic(bytes.data(), 5, "h0");
    sx_make_symbolic(bytes.data() + 22, 5, "h1");
    bytes.resize(n);
  }
  size_t c[2];
  static const uint32_t cutsat[] = {0, 3, 25};
  c[0] = pick_of("c0", cutsat);
  if (c[0] > n) return;
  c[1] = c[0];
  Cuts q(bytes, c, 2, (int)pick("empty", 0, 1));
  FResult r = run(f, q.p.v, single, n);
  if (r.status.ok()) {
    size_t at = 0, k = 0;
    while (at < n) {
      CHECK(n - at >= 22, "only whole records are accepted");
      size_t len = (size_t)bytes[at + 3] << 8 | bytes[at + 4];
      CHECK((bytes[at] == 0x17) & (bytes[at + 1] == 3) & (bytes[at + 2] == 3) & (len >= 17) & (len <= n - at - 5), "only well-formed headers are accepted");
      at += 5 + sx_concretize(len);
      k++;
    }
    CHECK(k == r.bytes.size() && k == (size_t)cm::nops && (!single || k == 1), "each accepted record was opened");
    for (int i = 0; i < cm::nops; i++) CHECK(cm::ops[i].done == 1, "only authenticated records are accepted");
    REACH("accepted");
  } else REACH("rejected");
#elif MODE == 2   // other record kinds in the stream: tickets, alerts
  auto d = symvec("d", 1);
  std::vector<uint8_t> bytes;
  if (!single && flag("before")) { auto r = in.msg(23, d); bytes = r; }
  bool first = !bytes.empty();
  int kind = pick("kind", 0, 3);
  std::vector<uint8_t> content;
  if (kind == 0) content = {4, 0, 0, 1, 9};
  if (kind == 1) content = {24, 0, 0, 1, 0};
  if (kind == 2) content = {1, 0};
  if (kind == 3) content = {2, 40};
  auto r1 = in.msg(kind < 2 ? 22 : 21, content);
  bytes.insert(bytes.end(), r1.begin(), r1.end());
  if (kind == 1) in.update();
  bool last = !single && flag("after");
  if (last) { auto r = in.msg(23, d); bytes.insert(bytes.end(), r.begin(), r.end()); }
  size_t c[1] = {pick("c", 0, 2) * 11};
  Cuts q(bytes, c, 1, 0);
  FResult r = run(f, q.p.v, single, bytes.size());
  CHECK(r.status.ok() == (kind < 2), "handshake records are consumed, alerts end with an error");
  if (r.status.ok()) {
    std::vector<uint8_t> got;
    for (auto &v : r.bytes) got.insert(got.end(), (uint8_t *)v.iov_base, (uint8_t *)v.iov_base + v.iov_len);
    CHECK(got.size() == (size_t)first + last, "handshake bytes are not returned as plaintext");
    for (auto b : got) CHECK(b == d[0], "application data is");
    REACH("consumed");
  } else REACH("alert");
#elif MODE == 3   // a library call fails
  std::vector<uint8_t> bytes;
  int k = single ? 1 : 2;
  for (int i = 0; i < k; i++) { auto r = in.msg(23, symvec("d", 1)); bytes.insert(bytes.end(), r.begin(), r.end()); }
  size_t c[1] = {7};
  Cuts q(bytes, c, 1, 0);
  cm::calls = 0;
  cm::fail_at = pick("fail", 1, 16);
  FResult r = run(f, q.p.v, single, bytes.size());
  bool failed = cm::calls >= cm::fail_at;
  cm::fail_at = 0;
  CHECK(r.status.ok() == !failed, "a failing library call is an error");
  if (failed) REACH("failed"); else REACH("fine");
#elif MODE == 4   // lengths: header announces any length
  cm::length_mode = true;
  Buf b(5), p(17500), p2(17);
  b.p[0] = 0x17; b.p[1] = 3; b.p[2] = 3;
  sx_make_symbolic(b.p + 3, 2, "len");
  size_t n = sym32("have");
  bool small = flag("small");
  sx_assume(n <= (small ? 16 : p.n));
  std::vector<Iovec> v = {{b.p, 5}, {p.p, n}, {p2.p, small ? 0ul : 17ul}};   // the tag never at an arbitrary offset
  if (!small) n += 17;
  size_t len = (size_t)b.p[3] << 8 | b.p[4];
  sx_assume(len >= n);   // exactly one record, or a partial one
  FResult r;
  r = f->Unprotect(v);
  CHECK((cm::nops == 1) == ((len == n) & (n >= 17) & (n <= 16401)), "only a complete record within the limits is opened");
  CHECK(r.status.ok() == (cm::nops == 1), "a complete record is accepted");
  CHECK(r.bytes.empty() == !r.status.ok(), "no plaintext is returned on failure");
  if (r.status.ok()) CHECK(r.bytes.size() == 1 && r.bytes[0].iov_len == n - 17, "the plaintext has the right length");
  settle(r.bytes);
  if (cm::nops) REACH("opened"); else REACH("not opened");
#endif
  }
  fp_end();
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
