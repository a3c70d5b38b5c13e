// C03: nothing unauthenticated is released or takes effect.
#include "rec.h"
#ifndef MODE
#define MODE 0
#endif
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
  Suite s = suite(pick("suite", 0, 2));
#if MODE == 0   // the cipher's verdict is arbitrary: what reached it, and what a failure does
  cm::symbolic_ks = true;
  uint64_t q = sym64("seq");
  sx_assume(q < ~0ull - 4);
  Dir in(s, 0x40, q), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  // optionally inside a handshake message, or with a ticket already received
  int before = pick("before", 0, 2);
  if (before == 1) CHECK(unprotect(c, in.msg(22, {4, 0, 0})).code == Code::OK, "a handshake fragment is accepted");
  if (before == 2) CHECK(unprotect(c, in.msg(22, {4, 0, 0, 1, 9})).code == Code::OK, "a ticket is accepted");
  int done = cm::nops;
  cm::verdict = 1;
  size_t n = pick("n", 1, NMAX);
  std::vector<uint8_t> rec = symvec("record", 5 + n + 16);
  static const uint8_t hd[4] = {0x17, 3, 3, 0};
  memcpy(rec.data(), hd, 4);
  rec[4] = (uint8_t)(n + 16);
  size_t room = n + pick("room", 0, 1) * 3;
  size_t a = pick_of("cut", (const uint32_t[]){0, 1, 17});
  Got g = unprotect(c, rec, room, a, a + 1);
  cm::verdict = 0;
  CHECK(cm::nops == done + 1, "one opening");
  const cm::Op &o = cm::ops[done];
  CHECK(in.is(o, 0, rec.data()), "opened under the current key, the next record number and the record's own header");
  CHECK(o.len == n && same(o.in, rec.data() + 5, n) && o.taglen == 16 && same(o.tag, rec.data() + 5 + n, 16), "the whole payload and its 16-byte tag are authenticated");
  in.seq++;
  if (o.done == 1) { REACH("authentic"); return; }
  CHECK(g.code != Code::OK && g.n == 0, "a record that fails authentication is an error with zero bytes");
  CHECK(g.zero, "the plaintext buffer is all zero after an authentication failure");
  CHECK(g.code != Code::ALERT_CLOSE_NOTIFY && g.code != Code::ALERT_OTHER, "no alert is reported from an unauthenticated record");
  CHECK(sent.calls == 0, "no ticket is forwarded because of an unauthenticated record");
  // nothing took effect: the connection goes on where it was
  if (before == 1) {
    CHECK(unprotect(c, in.msg(22, {1, 0x77})).code == Code::OK, "a later handshake fragment completes the message");
  }
  auto d = symvec("next", 1);
  Got h = unprotect(c, in.msg(23, d));
  CHECK(h.code == Code::OK && vsame(h.out, d), "a later valid record is accepted on its own");
  if (before == 0) CHECK(sent.calls == 0, "no ticket came from the unauthenticated record");
  else CHECK(sent.calls == 1 && sent.tickets.size() == 1 && sent.tickets[0] == (before == 1 ? std::string("\4\0\0\1\x77", 5) : std::string("\4\0\0\1\x09", 5)), "only the authenticated ticket is forwarded");
  auto e = symvec("out", 1);
  std::vector<uint8_t> inner = {e[0], 23};
  Got w = protect(c, RecordType::APPLICATION_DATA, e);
  CHECK(w.code == Code::OK && vsame(w.out, out.seal(inner)), "the outbound direction is unaffected");
  REACH("forged");
#elif MODE == 1   // any change to a genuine record is rejected
  cm::symbolic_ks = true;
  Dir in(s, 0x40, 3), out(s, 0x90, 5);
  Crypter c = connect(in, out);
  size_t n = pick("n", 0, NMAX);
  auto data = symvec("data", n);
  auto rec = in.msg(23, data);
  int how = pick("how", 0, 2);
  std::vector<uint8_t> bad = rec;
  if (how == 0) sx_make_symbolic(bad.data(), bad.size(), "bad");          // any bytes, same length
  else if (how == 1) { bad.pop_back(); bad[4]--; }                        // shortened
  else { bad.push_back(sym8("extra")); bad[4]++; }                        // extended
  bool equal = how == 0 && same(bad.data(), rec.data(), rec.size());
  if (how == 0 && !equal) {
    bool head = same(bad.data(), rec.data(), 5);
    Got g = unprotect(c, bad);
    CHECK(g.code != Code::OK && g.n == 0, "a changed record is rejected");
    if (head) { CHECK(g.zero, "the plaintext buffer is all zero after an authentication failure"); REACH("opt:changed payload"); }
    else REACH("opt:changed header");
    if (cm::nops == 0) { Got h = unprotect(c, rec); CHECK(h.code == Code::OK && vsame(h.out, data), "a record rejected by its header does not use up the number"); }
  } else {
    Got g = unprotect(c, bad, n + 3);
    if (equal) CHECK(g.code == Code::OK && vsame(g.out, data), "the genuine record is accepted");
    else CHECK(g.code != Code::OK && (cm::nops == 0 || g.zero), "a shortened or extended record is rejected");
  }
  if (cm::nops) {
    auto d = symvec("next", 1);
    Got h = unprotect(c, in.msg(23, d));
    CHECK(h.code == Code::OK && vsame(h.out, d), "a later valid record is accepted on its own");
    REACH("next");
  }
#elif MODE == 2   // genuine records out of place: replayed, reordered, skipped, reflected, under an old or new key
  Dir in(s, 0x40, 3), out(s, 0x90, 3);
  Crypter c = connect(in, out);
  auto d0 = symvec("d0", 1), d1 = symvec("d1", 1);
  int how = pick("how", 0, 6);
  Dir peer = in;
  auto r0 = peer.msg(23, d0), r1 = peer.msg(23, d1);
  std::vector<uint8_t> bad;
  if (how == 0) { CHECK(unprotect(c, r0).code == Code::OK, "the genuine record is accepted"); in.seq++; bad = r0; }   // replay
  else if (how == 1) bad = r1;                                                                                       // reordered
  else if (how == 2) { Dir o = out; bad = o.msg(23, d0); }                                                            // reflected from the other direction's secret
  else if (how == 3) { Got w = protect(c, RecordType::APPLICATION_DATA, d0); bad = w.out; }                           // our own record sent back
  else if (how == 4) { CHECK(unprotect(c, peer.msg(23, d0)).code != Code::OK, "a skipped record is rejected"); in.seq++; bad = r0; }  // too late
  else if (how == 5) { Dir o = in; o.update(); bad = o.msg(23, d0); }                                                 // key not agreed yet
  else { CHECK(unprotect(c, in.msg(22, {24, 0, 0, 1, 0})).code == Code::OK, "a key update is accepted"); in.update(); Dir o(s, 0x40, 0); bad = o.msg(23, d0); }  // the old key
  Got g = unprotect(c, bad);
  CHECK(g.code != Code::OK && g.n == 0 && g.zero, "a genuine record out of place is rejected");
  in.seq++;
  Got h = unprotect(c, in.msg(23, d1));
  CHECK(h.code == Code::OK && vsame(h.out, d1), "a later valid record is accepted on its own");
  REACH("done");
#elif MODE == 3   // a library call fails while a record is opened
  Dir in(s, 0x40, 3), out(s, 0x90, 3);
  Crypter c = connect(in, out);
  auto d = symvec("d", 2);
  auto rec = in.msg(23, d);
  cm::calls = 0;
  cm::fail_at = pick("fail_at", 1, 9);
  Got g = unprotect(c, rec, 3, 1, 2);
  bool failed = cm::calls >= cm::fail_at;
  cm::fail_at = 0;
  if (failed) { CHECK(g.code != Code::OK && g.n == 0 && g.zero, "a failing library call is an error, with a zeroed buffer"); REACH("failed"); }
  else CHECK(g.code == Code::OK && vsame(g.out, d), "the record is accepted");
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
