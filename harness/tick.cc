// C08: session tickets on their way to the S2A.
#include "rec.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "upb/upb.hpp"
#ifndef MODE
#define MODE 0
#endif
typedef ChannelOptions Opts;
static std::vector<uint8_t> ticket(size_t body) {
  std::vector<uint8_t> v = {4, 0, 0, (uint8_t)body};
  auto b = symvec("ticket", body);
  v.insert(v.end(), b.begin(), b.end());
  return v;
}
struct T {
  Dir in, out;
  Crypter c;
  Stream st;
  Factory *f;
  Opts *o;
  uint64_t id;
  std::string ident;
  bool handed = false, receiving = false;
  static Crypter make(const Dir &in, const Dir &out, Factory *f, Opts *o, uint64_t id, const std::string &ident) {
    auto r = S2ACrypter::Create(TlsVersion::TLS1_3, in.s.cs, id, "service:1", Identity::FromSpiffeId(ident), in.vec(), out.vec(), in.seq, out.seq, sender,
                                std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface>(f), std::unique_ptr<ChannelOptions>(o), [](const std::string &) {});
    CHECK(r.index() == 1, "the connection is created");
    return std::move(absl::get<1>(r));
  }
  T(const Suite &s) : in(s, 0x40, 3), out(s, 0x90, 5), f(new Factory), o(new Opts), id(sym64("id")), ident(symstr("ident", 2)) { c = make(in, out, f, o, id, ident); }
  void check_handed() {
    size_t n = st.tickets.size() < 5 ? st.tickets.size() : 5;
    CHECK(sent.calls == 1, "the tickets are handed over exactly once");
    CHECK(sent.tickets.size() == n, "every complete ticket, at most five");
    for (size_t i = 0; i < n; i++) CHECK(sent.tickets[i].size() == st.tickets[i].size() && same(sent.tickets[i].data(), st.tickets[i].data(), st.tickets[i].size()), "whole tickets in arrival order");
    CHECK(sent.id == id && sent.ident.size() == 2 && same(sent.ident.data(), ident.data(), 2) && sent.type == S2AOptions::IdentityType::SPIFFE_ID && sent.url == "service:1", "with the connection's id, identity and service address");
    CHECK(sent.factory == f && sent.options == o, "with the caller's channel factory and options");
  }
  void hs(const std::vector<uint8_t> &part) {
    int u = st.updates;
    size_t had = st.tickets.size();
    bool was = st.open() && st.rest[0] == 4;
    st.feed(part.data(), part.size());
    Got g = unprotect(c, in.msg(22, part));
    CHECK(g.code == Code::OK && g.n == 0, "a handshake record is accepted and is not application data");
    if (st.updates > u) in.update();
    bool has = st.tickets.size() > had || was || (st.open() && st.rest[0] == 4);   // ticket bytes in this record
    if (handed) { CHECK(sent.calls == 1, "later tickets are ignored"); return; }
    if (has) receiving = true;
    if (st.tickets.size() < 5) CHECK(sent.calls == 0, "not handed over before the first application data or the fifth ticket");
    else if (sent.calls) { handed = true; size_t k = st.tickets.size(); check_handed(); (void)k; }
    else CHECK(st.open(), "handed over once the fifth ticket is complete");
  }
  void data() {
    auto d = symvec("data", receiving && !handed && !st.open() && flag("nodata") ? 0 : 1);
    Got g = unprotect(c, in.msg(23, d));
    if (st.open()) {
      CHECK(g.code != Code::OK, "application data in the middle of a handshake message is an error");
      CHECK(handed || sent.calls == 0, "an incomplete ticket is never forwarded");
      return;
    }
    CHECK(g.code == Code::OK && vsame(g.out, d), "application data is delivered");
    if (receiving && !handed) { handed = true; check_handed(); REACH("opt:handed over by data"); }
    else CHECK(sent.calls == (handed ? 1 : 0), "handed over at most once");
  }
};
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  int fac0 = live_factories;
  sent = Sent();
  bool any = false;
  {
#if MODE == 0 || MODE == 1
  T t(suite(pick("suite", 0, SUITES)));
  std::vector<uint8_t> m;
  if (flag("first")) t.data();
  int pre = MODE == 1 ? 4 : 0;
  for (int i = 0; i < pre; i++) { auto k = ticket(1); m.insert(m.end(), k.begin(), k.end()); }
  if (pre) {
    if (flag("apart")) { std::vector<uint8_t> h(m.begin(), m.begin() + 8), r(m.begin() + 8, m.end()); t.hs(h); t.hs(r); } else t.hs(m);
    m.clear();
  }
  int n = pick("tickets", MODE == 1 ? 1 : 0, 2);
  for (int i = 0; i < n; i++) { auto k = ticket(pick("body", 0, 2)); m.insert(m.end(), k.begin(), k.end()); }
  if (flag("ku")) m.insert(m.end(), {24, 0, 0, 1, 1});
  size_t a = pick("cut1", 0, m.size()), b = pick("cut2", a, m.size());
  t.hs(std::vector<uint8_t>(m.begin(), m.begin() + a));
  if (a < m.size()) {
    int ev = pick("between", 0, 1);
    if (ev == 1 && !t.st.open()) t.data();
    t.hs(std::vector<uint8_t>(m.begin() + a, m.begin() + b));
    if (b < m.size() && flag("rest")) t.hs(std::vector<uint8_t>(m.begin() + b, m.end()));
  }
  t.data();
  if (!t.st.open()) {
    if (flag("later")) t.hs(ticket(1));
    t.data();
    REACH("complete");
  } else REACH("incomplete");
  any = sent.calls > 0;
  CHECK(sent.waits == 0, "the sender is not waited for while the connection lives");
#elif MODE == 2   // the request built from the tickets
  upb::Arena arena;
  s2a_proto_SessionReq *req = s2a_proto_SessionReq_new(arena.ptr());
  uint64_t id = sym64("id");
  int type = pick("type", 0, 2);
  std::string v = symstr("identity", pick("n", 0, 3));
  Identity ident = type == 0 ? Identity::FromSpiffeId(v) : type == 1 ? Identity::FromHostname(v) : Identity::FromUid(v);
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> ts(new std::vector<std::unique_ptr<std::string>>);
  int k = pick("tickets", 0, 3);
  std::vector<std::string> want;
  for (int i = 0; i < k; i++) { want.push_back(symstr("ticket", pick("len", 0, 2) * 9)); ts->push_back(std::unique_ptr<std::string>(new std::string(want[i]))); }
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> none;
  bool null = k == 0 && flag("null");
  bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(id, ident, null ? none : ts, arena.ptr(), req);
  CHECK(ok == !null, "a request is built exactly when there is a ticket list");
  if (ok) {
    CHECK(s2a_proto_SessionReq_has_resumption_ticket(req), "it is a resumption ticket request");
    const s2a_proto_ResumptionTicketReq *r = s2a_proto_SessionReq_resumption_ticket(req);
    CHECK(s2a_proto_ResumptionTicketReq_connection_id(r) == id, "with exactly that connection id");
    const s2a_proto_Identity *pi = s2a_proto_ResumptionTicketReq_local_identity(r);
    CHECK(pi != nullptr, "with an identity");
    CHECK(s2a_proto_Identity_has_spiffe_id(pi) == (type == 0) && s2a_proto_Identity_has_hostname(pi) == (type == 1) && s2a_proto_Identity_has_uid(pi) == (type == 2), "of that type");
    upb_strview s = type == 0 ? s2a_proto_Identity_spiffe_id(pi) : type == 1 ? s2a_proto_Identity_hostname(pi) : s2a_proto_Identity_uid(pi);
    CHECK(s.size == v.size() && same(s.data, v.data(), v.size()), "and exactly that value");
    size_t cnt;
    upb_strview const *b = s2a_proto_ResumptionTicketReq_in_bytes(r, &cnt);
    CHECK(cnt == (size_t)k, "every ticket");
    for (int i = 0; i < k; i++) CHECK(b[i].size == want[i].size() && same(b[i].data, want[i].data(), want[i].size()), "ticket bytes unchanged and in order");
    REACH("built");
  } else REACH("refused");
#endif
  }
  if (any) CHECK(sent.waits == 1, "the sender is waited for when the connection ends");
  sent = Sent();
  CHECK(live_factories == fac0, "the factory is released");
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
