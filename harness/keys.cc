// C07: key schedule and key updates.
#include "rec.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef STEPS
#define STEPS 3
#endif
static const std::vector<uint8_t> KU = {24, 0, 0, 1, 0};
struct Conn {
  Dir in, out;
  Crypter c;
  Conn(const Dir &i, const Dir &o) : in(i), out(o), c(connect(i, o)) {}
  void send() {
    auto d = symvec("d", 1);
    int n = cm::nops;
    std::vector<uint8_t> inner = {d[0], 23};
    Got g = protect(c, RecordType::APPLICATION_DATA, d);
    CHECK(g.code == Code::OK && cm::nops == n + 1, "a record is sealed");
    CHECK(out.is(cm::ops[n], 1, g.out.data()), "sealed under the outbound key, IV and record number of the key schedule");
    CHECK(vsame(g.out, out.seal(inner)), "the record is the one of the key schedule");
  }
  Got recv(uint8_t t, const std::vector<uint8_t> &content) {
    int n = cm::nops;
    Dir now = in;
    auto r = in.msg(t, content);
    Got g = unprotect(c, r);
    CHECK(cm::nops == n + 1 && now.is(cm::ops[n], 0, r.data()), "opened under the inbound key, IV and record number of the key schedule");
    CHECK(g.code == Code::OK, "a genuine record is accepted");
    return g;
  }
  void recv() {
    auto d = symvec("d", 1);
    CHECK(vsame(recv(23, d).out, d), "its content is delivered");
  }
};
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
#if MODE == 0   // any secrets, sequences of records and updates
  cm::symbolic_mac = true;
  Suite s = suite(pick("suite", 0, 2));
  Conn x(Dir(s, "insecret", 3), Dir(s, "outsecret", 9));
  for (int i = 0; i < STEPS; i++) {
    switch (pick("op", 0, 3)) {
      case 0: x.send(); break;
      case 1: x.recv(); break;
      case 2: CHECK(x.c->UpdateOutboundKey().ok(), "the outbound key is updated"); x.out.update(); REACH("out"); break;
      case 3: x.recv(22, KU); x.in.update(); REACH("in"); break;
    }
  }
  x.send();
  x.recv();
#elif MODE == 1   // what Create accepts
  int cs = (int)sym32("cs"), ver = (int)sym32("version");
  int which = pick("known", 0, 3);
  static const Ciphersuite all[] = {Ciphersuite::AES_128_GCM_SHA256, Ciphersuite::AES_256_GCM_SHA384, Ciphersuite::CHACHA20_POLY1305_SHA256};
  if (which < 3) sx_assume(cs == (int)all[which]);
  else sx_assume((cs != (int)all[0]) & (cs != (int)all[1]) & (cs != (int)all[2]));
  static const uint32_t lens[] = {0, 1, 16, 31, 32, 33, 47, 48, 49, 64};
  size_t a = pick_of("inlen", lens), b = pick_of("outlen", lens);
  std::vector<uint8_t> si(a, 0x31), so(b, 0x77);
  auto r = S2ACrypter::Create(static_cast<TlsVersion>(ver), static_cast<Ciphersuite>(cs), 7, "url", Identity::FromUid("u"), si, so, 0, 0, sender, nullptr, nullptr, [](const std::string &) {});
  size_t h = which == 1 ? 48 : 32;
  bool ok = which < 3 && a == h && b == h && ver == (int)TlsVersion::TLS1_3;
  CHECK((r.index() == 1) == ok, "a connection is created exactly for TLS 1.3, a known ciphersuite and secrets of its hash length");
  if (ok) { CHECK(absl::get<1>(r) != nullptr, "the connection exists"); REACH("created"); }
  else { CHECK(!absl::get<0>(r).ok(), "an error is reported"); REACH("refused"); }
#elif MODE == 2   // key updates cut into records, after tickets, several of them
  Suite s = suite(pick("suite", 0, 2));
  Conn x(Dir(s, 0x40, 3), Dir(s, 0x90, 9));
  std::vector<uint8_t> m;
  if (flag("ticket")) m = {4, 0, 0, 1, 0x55};
  m.insert(m.end(), KU.begin(), KU.end());
  m.back() = (uint8_t)flag("req");
  size_t n = m.size(), a = pick("cut1", 0, n), b = pick("cut2", a, n);
  std::vector<uint8_t> p1(m.begin(), m.begin() + a), p2(m.begin() + a, m.begin() + b), p3(m.begin() + b, m.end());
  x.recv(22, p1);
  if (a == n) x.in.update();
  else { x.send(); x.recv(22, p2); if (b == n) x.in.update(); }
  if (a < n && b < n) { x.recv(22, p3); x.in.update(); }
  x.send();
  if (flag("again")) { x.recv(22, KU); x.in.update(); }
  x.recv();
  x.send();
  REACH("done");
#elif MODE == 3   // an update fails at any library call
  Suite s = suite(pick("suite", 0, 2));
  Conn x(Dir(s, 0x40, 3), Dir(s, 0x90, 9));
  bool inbound = flag("inbound");
  int j = pick("fail", 1, 45);
  if (!inbound) {
    cm::calls = 0;
    cm::fail_at = j;
    bool ok = x.c->UpdateOutboundKey().ok();
    bool failed = cm::calls >= j;
    cm::fail_at = 0;
    CHECK(ok == !failed, "a failing step is reported");
    if (ok) { x.out.update(); x.send(); }
    else {
      int n = cm::nops;
      for (int i = 0; i < 2; i++) {
        CHECK(protect(x.c, RecordType::APPLICATION_DATA, {1}).code != Code::OK && cm::nops == n, "after a failed update the direction refuses all records");
        x.c->UpdateOutboundKey();
      }
      REACH("out failed");
    }
    x.recv();
  } else {
    // as many library calls as opening a record of this size takes
    cm::calls = 0;
    x.recv(23, KU);
    int d = cm::calls;
    cm::calls = 0;
    cm::fail_at = d + j;
    auto r = x.in.msg(22, KU);
    Got g = unprotect(x.c, r);
    bool failed = cm::calls >= d + j;
    cm::fail_at = 0;
    CHECK((g.code == Code::OK) == !failed, "a failing step is reported");
    if (!failed) { x.in.update(); x.recv(); }
    else {
      int n = cm::nops;
      Dir u = x.in;
      u.update();
      CHECK(unprotect(x.c, x.in.msg(23, {1})).code != Code::OK && cm::nops == n, "after a failed update the direction refuses all records (old key)");
      CHECK(unprotect(x.c, u.msg(23, {1})).code != Code::OK && cm::nops == n, "after a failed update the direction refuses all records (new key)");
      REACH("in failed");
    }
    x.send();
  }
#elif MODE == 4   // creation fails at any library call
  Suite s = suite(pick("suite", 0, 2));
  std::vector<uint8_t> sec(s.hash, 0x31);
  cm::calls = 0;
  cm::fail_at = pick("fail", 1, 60);
  auto r = S2ACrypter::Create(TlsVersion::TLS1_3, s.cs, 7, "url", Identity::FromUid("u"), sec, sec, 0, 0, sender, nullptr, nullptr, [](const std::string &) {});
  bool failed = cm::calls >= cm::fail_at;
  cm::fail_at = 0;
  CHECK((r.index() == 1) == !failed, "a failing step is an error");
  if (failed) REACH("failed"); else REACH("created");
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
