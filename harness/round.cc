// C01: two mirrored endpoints.
#include "rec.h"
#ifndef STEPS
#define STEPS 3
#endif
struct Flight { std::vector<uint8_t> rec, data; bool ku; };
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
  Suite s = suite(SUITE < 3 ? SUITE : pick("suite", 0, 2));
  cm::symbolic_ks = SYMKS;
  uint64_t q[2] = {sym64("ab"), sym64("ba")};
  sx_assume(q[0] < ~0ull - STEPS);
  sx_assume(q[1] < ~0ull - STEPS);
  Dir ab(s, 0x40, q[0]), ba(s, 0x90, q[1]);
  Crypter end[2] = {connect(ba, ab), connect(ab, ba)};
  size_t a = pick("cut", 0, 2);
  bool late = flag("late");   // delivered at once, or only when everything was sent
  std::vector<Flight> fly[2];
  auto deliver = [&](int to) {
    Flight &f = fly[to].front();
    Got g = unprotect(end[to], f.rec, f.rec.size() - 21, a == 0 ? 1u << 30 : a == 1 ? 1 : f.rec.size() - 5 - 16, f.rec.size() - 8);
    CHECK(g.code == Code::OK, "the peer accepts the record");
    CHECK(vsame(g.out, f.ku ? std::vector<uint8_t>() : f.data), "the peer gets exactly the bytes sent");
    fly[to].erase(fly[to].begin());
  };
  for (int i = 0; i < STEPS; i++) {
    int from = pick("from", 0, 1);
    Flight f;
    f.ku = flag("ku");
    if (f.ku) {
      f.data = {24, 0, 0, 1, (uint8_t)(i & 1)};
      Got g = protect(end[from], RecordType::HANDSHAKE, f.data);
      CHECK(g.code == Code::OK, "the key update message is sealed");
      f.rec = g.out;
      CHECK(end[from]->UpdateOutboundKey().ok(), "the outbound key is updated");
      REACH("key update");
    } else {
      f.data = symvec("data", flag("n") * NMAX);
      Got g = protect(end[from], RecordType::APPLICATION_DATA, f.data, a);
      CHECK(g.code == Code::OK, "application data is sealed");
      f.rec = g.out;
    }
    fly[1 - from].push_back(f);
    if (!late) deliver(1 - from);
  }
  for (int to = 0; to < 2; to++) while (!fly[to].empty()) deliver(to);
  REACH("all");
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
