// C04: what Protect writes.
#include "rec.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NMAX
#define NMAX 2
#endif
static RecordType rtype(uint32_t t) { return t == 0 ? RecordType::APPLICATION_DATA : t == 1 ? RecordType::ALERT : t == 2 ? RecordType::HANDSHAKE : static_cast<RecordType>(7); }
static uint8_t rbyte(uint32_t t) { return t == 0 ? 23 : t == 1 ? 21 : 22; }
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
  Suite s = suite(pick("suite", 0, 2));
#if MODE == 0 || MODE == 2
  cm::symbolic_ks = true;
  uint64_t q = sym64("seq");
  Dir in(s, 0x40, 3), out(s, 0x90, q);
  Crypter c = connect(in, out);
  CHECK(c->RecordOverhead() == 22, "the advertised overhead is header, type byte and tag");
  uint32_t t = pick("type", 0, MODE == 2 ? 2 : 3);
  size_t n = MODE == 2 ? 2 : pick("n", 0, NMAX);
  auto data = symvec("pt", n);
  size_t a = pick("a", 0, n), b = pick("b", a, n);
  Pieces p;
  p.cut(data.data(), n, a, b);
  uint32_t k = MODE == 2 ? 0 : pick("slack", 0, 4);
  size_t need = n + 22, len = k == 0 ? need : k == 1 ? need + 3 : k == 2 ? need - 1 : k == 3 ? 5 : 0;
  Buf rec(len ? len : 1);
  cm::calls = 0;
#if MODE == 2
  cm::fail_at = pick("fail_at", 0, 10);
#endif
  auto st = c->Protect(rtype(t), p.v, {rec.p, len});
  bool failed = cm::fail_at && cm::calls >= cm::fail_at;
  cm::fail_at = 0;
  bool ok = st.GetCode() == Code::OK;
  sx_observe("ok", ok);
  bool valid = len >= need && t < 3;
  CHECK(p.unchanged(data.data()), "the plaintext buffers are not modified");
  if (!valid) CHECK(!ok && cm::nops == 0, "a too small buffer or an unknown type is rejected");
  if (failed) CHECK(!ok, "a failing library call is an error");
  if (valid && !failed) CHECK(ok, "a valid protect succeeds");
  if (!ok) {
    CHECK(st.GetBytesWritten() == 0, "an error reports zero bytes");
    if (failed) REACH("opt:fault"); else REACH("opt:rejected");
    return;
  }
  CHECK(st.GetBytesWritten() == need, "bytes written are header, plaintext, type and tag");
  auto inner = data;
  inner.push_back(rbyte(t));
  auto want = out.seal(inner);
  CHECK(same(rec.p, want.data(), need), "exactly one TLS 1.3 record with the sealed plaintext and type");
  CHECK(cm::nops == 1 && cm::ops[0].enc, "one sealing");
  REACH("sealed");
#elif MODE == 1   // lengths: all sizes at once
  cm::length_mode = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 1);
  Crypter c = connect(in, out);
  size_t big = 18000;
  Buf pt(big), pt2(64);
  Buf rec(18200);
  size_t n = sym32("n"), m = pick("second", 0, 1) * 64, len = sym32("len");
  sx_assume(n <= big);
  sx_assume(len <= rec.n);
  std::vector<Iovec> v = {{pt.p, n}, {pt2.p, m}};
  auto st = c->Protect(RecordType::APPLICATION_DATA, v, {rec.p, len});
  bool ok = st.GetCode() == Code::OK;
  sx_observe("ok", ok);
  size_t total = n + m;
  CHECK(ok == ((total <= 16384) & (len >= total + 22)), "accepted exactly when the plaintext is at most 2^14 bytes and the record fits");
  CHECK(st.GetBytesWritten() == (ok ? total + 22 : 0), "bytes written are header, plaintext, type and tag");
  if (!ok) { CHECK(cm::nops == 0, "nothing is sealed when rejected"); REACH("rejected"); return; }
  CHECK((rec.p[0] == 0x17) & (rec.p[1] == 3) & (rec.p[2] == 3) & (rec.p[3] == (uint8_t)((total + 17) >> 8)) & (rec.p[4] == (uint8_t)(total + 17)), "header 17 03 03 and the length of what follows");
  CHECK(cm::nops == 1 && cm::ops[0].len == total + 1, "the whole plaintext and one type byte are sealed");
  REACH("accepted");
#elif MODE == 3   // full-size records on either side of the limit (all library variants)
  cm::length_mode = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 1);
  Crypter c = connect(in, out);
  static const uint32_t lens[] = {255, 256, 4095, 16383, 16384, 16385, 65536};
  size_t n = pick_of("n", lens);
  Buf pt(n);
  size_t a = pick("cut", 0, 1) ? n / 2 : 0;
  uint32_t k = pick("slack", 0, 1);
  Buf rec(n + 22 - k);
  auto st = c->Protect(RecordType::HANDSHAKE, {{pt.p, a}, {pt.p + a, n - a}}, {rec.p, rec.n});
  bool ok = st.GetCode() == Code::OK;
  CHECK(ok == (n <= 16384 && k == 0), "accepted exactly when the plaintext is at most 2^14 bytes and the record fits");
  CHECK(st.GetBytesWritten() == (ok ? n + 22 : 0), "bytes written are header, plaintext, type and tag");
  if (ok) {
    CHECK(rec.p[0] == 0x17 && rec.p[1] == 3 && rec.p[2] == 3 && rec.p[3] == (uint8_t)((n + 17) >> 8) && rec.p[4] == (uint8_t)(n + 17), "header 17 03 03 and the length of what follows");
    CHECK(cm::nops == 1 && cm::ops[0].len == n + 1, "the whole plaintext and one type byte are sealed");
    REACH("accepted");
  } else REACH("rejected");
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
