// C06: HandshakeMessageHandler against a byte-at-a-time reference parser.
#include "h.h"
#include "src/record_protocol/handshake_message_handler.h"
using s2a::handshake_message_handler::HandshakeMessageHandler;
typedef HandshakeMessageHandler::Result Result;
#ifndef MODE
#define MODE 0
#endif
#define CAP 64
struct Ref {
  uint8_t cur[CAP];
  size_t n = 0;
  struct T { uint8_t b[CAP]; size_t n; } t[8];
  size_t stored = 0;      // tickets in the store
  bool retrieved = false;
  bool loose = false;     // a malformed key update (body not one byte) was seen: error or not is open
  // returns false on error
  bool feed(const uint8_t *p, size_t len, Result *r) {
    *r = Result{false, false, 0xff, false, 0};
    bool complete_ku = false;
    loose = false;
    for (size_t i = 0; i < len; i++) {
      if (complete_ku) return false;
      cur[n++] = p[i];
      uint8_t type = cur[0];
      if (type == 0x18) r->contains_key_update = true;
      else if (type == 0x04) r->contains_ticket = true;
      else return false;
      if (n < 4) continue;
      size_t body = (size_t)cur[1] << 16 | (size_t)cur[2] << 8 | cur[3];
      if (n < 4 + body) continue;
      if (type == 0x04) {
        if (!retrieved && stored < 5) {
          memcpy(t[stored].b, cur, n);
          t[stored].n = n;
          stored++;
        }
      } else {
        complete_ku = true;
        if (body != 1) loose = true;
        r->key_update_type = body >= 1 ? cur[4] : 0xff;
      }
      n = 0;
    }
    r->expecting_to_read_more_bytes = n != 0;
    r->num_full_tickets_stored = stored;
    return true;
  }
};
static bool retrieve(HandshakeMessageHandler &h, Ref &ref) {
  auto g = h.GetStoredTickets();
  bool ok = g.index() == 1;
  bool want = !ref.retrieved && !(ref.n > 0 && ref.cur[0] == 0x04);
  sx_observe("get", ok);
  CHECK(ok == want, "tickets are retrieved once and not in the middle of a ticket");
  if (!ok) return false;
  auto &v = *absl::get<1>(g);
  CHECK(v.size() == ref.stored, "every stored ticket is retrieved");
  for (size_t i = 0; i < ref.stored; i++) {
    size_t k = 0;
    bool eq = true;
    for (auto &f : *v[i]) {
      for (uint8_t b : *f) {
        if (k >= ref.t[i].n || b != ref.t[i].b[k]) eq = false;
        k++;
      }
    }
    CHECK(eq && k == ref.t[i].n, "a ticket is retrieved whole, header included, in order");
  }
  ref.retrieved = true;
  ref.stored = 0;
  return true;
}
// stream[0..n) cut into calls ending at cut[i]; tickets requested after call `get` (and at the end)
static void drive(const uint8_t *stream, const size_t *cut, int ncalls, int get) {
  HandshakeMessageHandler h;
  Ref ref;
  size_t at = 0;
  bool dead = false;
  for (int c = 0; c < ncalls; c++) {
    size_t len = cut[c] - at;
    Buf b(len);
    if (len) memcpy(b.p, stream + at, len);
    at = cut[c];
    uint8_t dummy = 0;
    auto r = h.ProcessHandshakeMessage(len ? b.p : &dummy, len);
    bool ok = r.index() == 1;
    sx_observe("ok", ok);
    if (dead) continue;   // after an error only memory safety is claimed
    Result want;
    bool wok = ref.feed(b.p, len, &want);
    if (!ok && wok && ref.loose) { dead = true; continue; }
    CHECK(ok == wok, "error exactly on an unknown type or bytes after a key update");
    if (!ok) { dead = true; REACH("opt:error"); continue; }
    Result got = absl::get<1>(r);
    CHECK(got.expecting_to_read_more_bytes == want.expecting_to_read_more_bytes, "expects more bytes exactly inside a message");
    CHECK(got.contains_key_update == want.contains_key_update, "key update is reported");
    CHECK(got.contains_ticket == want.contains_ticket, "ticket is reported");
    if (want.contains_key_update && !want.expecting_to_read_more_bytes) {
      CHECK(got.key_update_type == want.key_update_type, "key update request byte is reported");
      REACH("opt:key update");
    }
    CHECK(got.num_full_tickets_stored == want.num_full_tickets_stored, "number of stored tickets");
    sx_observe("n", got.num_full_tickets_stored);
    if (c == get) retrieve(h, ref);
  }
  if (!dead) {
    if (retrieve(h, ref)) REACH("opt:tickets");
    auto again = h.GetStoredTickets();
    if (ref.retrieved) CHECK(again.index() == 0, "second retrieval is an error");
    REACH("end");
  } else {
    h.GetStoredTickets();
  }
}
extern "C" void sx_main() {
  uint8_t s[CAP];
  size_t cut[6];
#if MODE == 0     // arbitrary bytes
#ifndef LEN
#define LEN 9
#endif
  size_t n = LEN;
  sx_make_symbolic(s, n, "stream");
  for (int i = 0; i < CALLS - 1; i++) cut[i] = pick("cut", i ? cut[i - 1] : 0, n);
  cut[CALLS - 1] = n;
  drive(s, cut, CALLS, CALLS > 1 ? 0 : 9);
#elif MODE == 1   // K well-formed messages, any cut, possibly truncated
#ifndef K
#define K 3
#endif
  size_t n = 0;
  for (int i = 0; i < K; i++) {
    uint32_t ty = pick("type", 0, 2);
    size_t body = ty == 1 ? 1 : pick("body", 0, BODY);
    uint8_t t = ty == 0 ? 0x04 : ty == 1 ? 0x18 : sym8("other");
    s[n++] = t; s[n++] = 0; s[n++] = 0; s[n++] = (uint8_t)body;
    if (body) sx_make_symbolic(s + n, body, "body");
    n += body;
  }
  for (int i = 0; i < CALLS - 1; i++) cut[i] = pick("cut", i ? cut[i - 1] : 0, n);
  cut[CALLS - 1] = pick("end", n - 1, n);
  if (CALLS > 1) sx_assume(cut[CALLS - 2] <= cut[CALLS - 1]);
  drive(s, cut, CALLS, (int)pick("get", 0, CALLS - 1));
#elif MODE == 2   // seven tickets: the limit of five
  size_t n = 0;
  for (int i = 0; i < 7; i++) {
    size_t body = i == 3 ? 2 : 1;
    s[n++] = 4; s[n++] = 0; s[n++] = 0; s[n++] = (uint8_t)body;
    sx_make_symbolic(s + n, body, "body");
    n += body;
  }
  for (int i = 0; i < 2; i++) cut[i] = pick("cut", i ? cut[i - 1] : 0, n);
  cut[2] = n;
  drive(s, cut, 3, (int)pick("get", 0, 3));
#elif MODE == 3   // long messages: symbolic body length up to 2^24-1 announced, prefix delivered
  uint32_t body = sym32("len");
  sx_assume(body < (1u << 24) && body > 40);
  s[0] = flag("ku") ? 0x18 : 4; s[1] = body >> 16; s[2] = body >> 8; s[3] = body;
  sx_make_symbolic(s + 4, 12, "body");
  cut[0] = pick("cut", 0, 16); cut[1] = 16;
  drive(s, cut, 2, 0);
#endif
}
