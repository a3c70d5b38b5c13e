// C05: how an inbound record is interpreted.
#include "rec.h"
#ifndef MODE
#define MODE 0
#endif
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
#if MODE == 0 || MODE == 3   // any inner plaintext, then an application data record
  Suite s = suite(MODE == 3 ? 0 : pick("suite", 0, 2));
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  Stream st;
  bool closed = false;
#if MODE == 0
  size_t n = pick("n", 1, LMAX);
  auto inner = symvec("inner", n);
  auto rec = in.seal(inner);
  Got g = unprotect(c, rec, n, pick("cut", 0, 2) * n / 2);
  size_t k = n;
  while (k > 0 && inner[k - 1] == 0) k--;
  if (k == 0) {
    CHECK(g.code == Code::INVALID_RECORD, "an all-zero inner plaintext is an invalid record");
    REACH("opt:zero");
  } else {
    uint8_t t = inner[k - 1];
    size_t len = k - 1;
    if (t == 23) {
      CHECK(g.code == Code::OK && g.n == len && same(g.out.data(), inner.data(), len), "application data is exactly the bytes before the type byte");
      REACH("opt:data");
    } else if (t == 21) {
      if (len < 2) { CHECK(g.code == Code::INVALID_RECORD, "a truncated alert is an invalid record"); REACH("opt:short alert"); }
      else if (inner[1] == 0) { CHECK(g.code == Code::ALERT_CLOSE_NOTIFY, "close notify is reported"); closed = true; REACH("opt:close"); }
      else { CHECK(g.code == Code::ALERT_OTHER, "other alerts are reported"); REACH("opt:alert"); }
    } else if (t == 22) {
      st.feed(inner.data(), len);
      CHECK(g.n == 0, "handshake bytes are not application data");
      if (st.odd) return;
      CHECK((g.code == Code::OK) == !st.bad, "handshake record accepted exactly when well-formed");
      if (st.bad) { REACH("opt:bad handshake"); return; }
      for (int i = 0; i < st.updates; i++) in.update();
      REACH("opt:handshake");
    } else {
      CHECK(g.code == Code::INVALID_RECORD, "an unknown content type is an invalid record");
      REACH("opt:unknown");
    }
  }
#else
  // two handshake records that cut one or two messages anywhere
  uint8_t m[16];
  size_t n = 0;
  int first = pick("first", 0, 2);   // none, ticket, key update
  if (first == 1) { uint8_t t[] = {4, 0, 0, 2}; memcpy(m, t, 4); sx_make_symbolic(m + 4, 2, "body"); n = 6; }
  int second = first == 2 ? 0 : pick("second", 0, 1);
  if (first == 2 || second == 1) { uint8_t t[] = {24, 0, 0, 1, (uint8_t)pick("req", 0, 1)}; memcpy(m + n, t, 5); n += 5; }
  if (n == 0) return;
  size_t a = pick("cut1", 0, n), b = pick("cut2", a, n);
  size_t at[] = {0, a, b};
  for (int i = 0; i < 2; i++) {
    std::vector<uint8_t> part(m + at[i], m + at[i + 1]);
    int pad = i == 0 ? (int)pick("pad", 0, 2) : 0;
    part.push_back(22);
    for (int j = 0; j < pad; j++) part.push_back(0);
    int u = st.updates;
    st.feed(m + at[i], at[i + 1] - at[i]);
    Got g = unprotect(c, in.seal(part));
    CHECK(g.code == Code::OK && g.n == 0, "a well-formed handshake fragment is accepted and is not application data");
    if (st.updates > u) in.update();
  }
  if (st.open()) REACH("open"); else REACH("complete");
#endif
  // the next record
  int ops = cm::nops;
  auto d = symvec("next", 1);
  auto rec2 = in.msg(23, d);
  for (int i = 0; i < 2; i++) {
    Got h = unprotect(c, rec2);
    if (closed) {
      CHECK(h.code == Code::ALERT_CLOSE_NOTIFY && cm::nops == ops, "after a close-notify every unprotect fails without decrypting");
    } else if (st.open()) {
      CHECK(h.code == Code::INVALID_RECORD, "application data in the middle of a handshake message is an error");
      REACH("opt:middle");
      break;
    } else {
      CHECK(h.code == Code::OK && vsame(h.out, d), "the next application data is delivered");
      break;
    }
  }
#elif MODE == 1   // any header, small payloads
  Suite s = suite(pick("suite", 0, 2));
  cm::verdict = 1;
  cm::symbolic_ks = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  static const uint32_t hl[] = {5, 5, 4, 6, 0};
  uint32_t hk = pick("hk", 0, 4);
  size_t hlen = hl[hk];
  Buf h(hlen);
  h.symbolic("header");
  size_t P = pick("P", 0, 19);
  Buf p(P);
  p.symbolic("payload");
  Buf o(20);
  size_t a = pick("cut", 0, 1) * (P / 2);
  auto r = c->Unprotect({hk == 4 ? nullptr : h.p, hlen}, {{p.p, a}, {p.p + a, P - a}}, {o.p, 20});
  bool good = hlen == 5 && P >= 17 && ((h.p[0] == 0x17) & (h.p[1] == 3) & (h.p[2] == 3) & (h.p[3] == 0) & (h.p[4] == P));
  sx_observe("code", (uint64_t)r.GetCode());
  if (good) {
    CHECK(cm::nops == 1, "a record with a valid header is opened");
    REACH("opened");
  } else {
    CHECK(r.GetCode() != Code::OK && r.GetBytesWritten() == 0, "a wrong header or length is rejected");
    CHECK(cm::nops == 0, "a wrong header or length is rejected without decrypting");
    // and the record number is still there
    cm::verdict = 0;
    auto d = symvec("next", 1);
    Got g = unprotect(c, in.msg(23, d));
    CHECK(g.code == Code::OK && vsame(g.out, d), "the next application data is delivered");
    REACH("rejected");
  }
#elif MODE == 2   // every payload length, any length field
  Suite s = suite(pick("suite", 0, 2));
  cm::length_mode = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  Buf h(5);
  h.symbolic("header");
  Buf p(17000), p2(17), o(17100, 0x17);
  size_t n = sym32("P");
  sx_assume(n <= p.n);
  auto r = c->Unprotect({h.p, 5}, {{p.p, n}, {p2.p, 17}}, {o.p, o.n});
  n += 17;
  bool good = (n <= 16384 + 17) & (h.p[0] == 0x17) & (h.p[1] == 3) & (h.p[2] == 3) & (((size_t)h.p[3] << 8 | h.p[4]) == n);
  CHECK((cm::nops == 1) == good, "opened exactly when the header is valid and the length within the limits");
  if (good) {
    CHECK(r.GetCode() == Code::OK && r.GetBytesWritten() == n - 17 && cm::ops[0].len == n - 16, "the whole payload is opened");
    REACH("opened");
  } else {
    CHECK(r.GetCode() != Code::OK && r.GetBytesWritten() == 0, "rejected with an error");
    CHECK(n <= 16401 || r.GetCode() == Code::ALERT_RECORD_OVERFLOW, "a record over the limit is a record overflow");
    REACH("rejected");
  }
#elif MODE == 4   // sizes at the limits, both libraries
  Suite s = suite(pick("suite", 0, 2));
  cm::length_mode = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  static const uint32_t lens[] = {17, 255, 256, 272, 4096, 16384, 16385, 16400, 16401, 16402, 16640, 65535, 65553};
  size_t n = pick_of("n", lens);
  Buf p(n), o(n, 0x17), h(5);
  uint8_t hb[5] = {0x17, 3, 3, (uint8_t)(n >> 8), (uint8_t)n};
  memcpy(h.p, hb, 5);
  auto r = c->Unprotect({h.p, 5}, {{p.p, n / 3}, {p.p + n / 3, n - n / 3}}, {o.p, n - 16});
  bool good = n <= 16401;
  CHECK((cm::nops == 1) == good, "opened exactly when the length is within the limits");
  CHECK((r.GetCode() == Code::OK) == good && r.GetBytesWritten() == (good ? n - 17 : 0), "the plaintext has the right length");
  if (good) REACH("opened"); else REACH("rejected");
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
