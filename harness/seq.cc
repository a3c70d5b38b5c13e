// C02: record numbers and nonces.
#include "rec.h"
#ifndef STEPS
#define STEPS 3
#endif
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
  Suite s = suite(SUITE < 3 ? SUITE : pick("suite", 0, 2));
  uint64_t qi = sym64("in"), qo = sym64("out");
  Dir in(s, 0x40, qi), out(s, 0x90, qo);
  Crypter c = connect(in, out);
  bool in_dead = false, out_dead = false;
  static const uint8_t ku[] = {24, 0, 0, 1, 0};
  for (int step = 0; step < STEPS; step++) {
    int k = pick("op", 0, DIRS == 0 ? 3 : 5);
    int n0 = cm::nops;
#if DIRS == 0   // outbound
      if (k == 0) {
        auto d = symvec("d", 1);
        Buf rec(23);
        auto r = c->Protect(RecordType::APPLICATION_DATA, {{d.data(), 1}}, {rec.p, 23});
        if (out_dead) {
          CHECK(r.GetCode() != Code::OK && r.GetBytesWritten() == 0 && cm::nops == n0, "after the last record number protect fails without reaching the cipher");
          REACH("dead");
        } else {
          CHECK(r.GetCode() == Code::OK && cm::nops == n0 + 1 && out.is(cm::ops[n0], 1, rec.p), "the n-th record is sealed under nonce IV xor n");
          if (++out.seq == 0) out_dead = true;
          REACH("sealed");
        }
      } else if (k == 1) {   // rejected before sealing
        auto d = symvec("d", 1);
        Buf rec(22);
        auto r = c->Protect(RecordType::APPLICATION_DATA, {{d.data(), 1}}, {rec.p, 22});
        CHECK(r.GetCode() != Code::OK && cm::nops == n0, "a too small record buffer is rejected without sealing");
      } else if (k == 2) {
        Buf rec(40);
        auto r = c->Protect(static_cast<RecordType>(9), {}, {rec.p, 40});
        CHECK(r.GetCode() != Code::OK && cm::nops == n0, "an unknown type is rejected without sealing");
      } else {
        CHECK(c->UpdateOutboundKey().ok(), "the outbound key is updated");
        CHECK(cm::nops == n0, "a key update seals nothing");
        out.update();
        out_dead = false;
      }
#else
      // inbound: 0 data, 1 forged, 2 bad header, 3 key update, 4 too small buffer, 5 alert
      std::vector<uint8_t> content;
      uint8_t t = k == 3 ? 22 : k == 5 ? 21 : 23;
      if (k == 3) content.assign(ku, ku + 5);
      else if (k == 5) content = {1, 90};
      else content = symvec("d", 1);
      Dir peer = in;
      auto rec = peer.msg(t, content);
      if (k == 1) { uint8_t x = sym8("flip"); sx_assume(x != 0); rec.back() ^= x; }
      if (k == 2) rec[1] = 2;
      Got g = unprotect(c, rec, k == 4 ? content.size() : content.size() + 1);
      if (k == 2) {
        CHECK(g.code != Code::OK && cm::nops == n0, "a wrong header is rejected without opening");
      } else if (in_dead) {
        CHECK(g.code != Code::OK && cm::nops == n0, "after the last record number unprotect fails without reaching the cipher");
        REACH("dead");
      } else if (k == 4) {
        CHECK(g.code != Code::OK && g.zero, "a too small plaintext buffer is an error");
        bool used = cm::nops > n0;
        if (used) CHECK(in.is(cm::ops[n0], 0, rec.data()), "opened under nonce IV xor n");
        if (!used) break;   // whether the number is used up is open
        if (++in.seq == 0) in_dead = true;
      } else {
        CHECK(cm::nops == n0 + 1 && in.is(cm::ops[n0], 0, rec.data()), "the n-th record is opened under nonce IV xor n");
        if (++in.seq == 0) in_dead = true;
        if (k == 0) CHECK(g.code == Code::OK && vsame(g.out, content), "a genuine record is accepted");
        if (k == 3) { CHECK(g.code == Code::OK, "a key update is accepted"); in.update(); in_dead = false; }
        if (k == 5) CHECK(g.code == Code::ALERT_OTHER, "an alert is reported");
        if (k == 1) CHECK(g.code != Code::OK && g.zero, "a forged record is rejected");
        REACH("opened");
      }
#endif
  }
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
