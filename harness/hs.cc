// C13, C14, C15, C16: the handshake proxy.
#include "hs.h"
#include "upb/upb.hpp"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#ifndef MODE
#define MODE 0
#endif
#if MODE >= 30 && MODE < 40
// the frame protector's ticket sender, observed
namespace s2a { namespace s2a_ticket_sender { WaitOnTicketSender SendTicketsToS2A(TicketSenderOptions &o) { return sender(o); } } }
#endif
#if MODE >= 10 && MODE < 20
struct Tok { Id id; bool ok; std::string token; };
static std::vector<Tok> tokens;      // what the manager answers, the same every time
static bool default_ok;
static std::string default_token;
static int fetched, fetched_default;
struct Manager : TokenManager {
  absl::StatusOr<std::string> GetDefaultToken() override {
    fetched_default++;
    if (!default_ok) return absl::Status(absl::StatusCode::kNotFound, "none");
    return default_token;
  }
  absl::StatusOr<std::string> GetToken(const Identity &i) override {
    fetched++;
    Id x = id_of(i);
    for (auto &t : tokens) if (eq(t.id, x)) {
      if (!t.ok) break;
      return t.token;
    }
    return absl::Status(absl::StatusCode::kNotFound, "none");
  }
  std::string DebugName() const override { return "m"; }
};
// the authentication of a request: (identity or none, token)
static std::vector<std::pair<Id, std::string>> auths(const std::string &b) {
  std::vector<std::pair<Id, std::string>> r;
  Msg m(b);
  for (auto &s : m.strs(5)) {
    Msg a(s);
    CHECK(a.only({1, 2}) && a.count(2) == 1 && a.count(1) <= 1, "an authentication has one token and at most one identity");
    r.push_back({a.count(1) ? parse_id(a.str(1)) : Id{IdentityType::NONE, ""}, a.str(2)});
  }
  return r;
}
static void check_auth(const std::string &b, const std::vector<std::pair<Id, std::string>> &want) {
  auto got = auths(b);
  CHECK(got.size() == want.size(), "exactly the expected tokens are sent");
  for (auto &w : want) {
    bool any = false;
    for (auto &g : got) any = any | (eq(g.first, w.first) & eqs(g.second, w.second));
    CHECK(any, "a token is sent with the identity it was fetched for");
  }
}
#endif
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
#if MODE == 0   // scalars of the start request
  Cfg c;
  c.client = flag("client");
  c.proto = symstr("proto", pick("np", 0, 2));
  c.host = symstr("host", pick("nh", 0, 2));
  c.minv = pick("min", 0, 2);
  c.maxv = pick("max", 0, 2);
  int k = pick("suites", 0, SUITES);
  bool good = c.minv < 2 && c.maxv < 2;
  for (int i = 0; i < k; i++) { c.suites.push_back(pick("suite", 0, 3)); if (c.suites.back() > 2) good = false; }
  auto p = proxy(c);
  std::string peer = c.client ? "" : symstr("peer", pick("nb", 0, 2));
  auto r = p->GetBytesForS2A(peer.empty() && flag("null") ? nullptr : pbuf(peer));
  CHECK(r.status.ok() == good, "an option without a protocol representation is rejected, others are accepted");
  CHECK((r.buffer != nullptr) == good, "bytes are returned on success only");
  if (good) { CHECK(r.bytes_consumed == 0, "nothing is consumed"); check_start(c, peer, text(*r.buffer)); REACH("start"); }
  else REACH("rejected");
#elif MODE == 1   // identities of the start request
  Cfg c;
  c.client = flag("client");
  int nt = pick("targets", 0, 2), nl = pick("locals", 0, 2);
  for (int i = 0; i < nt; i++) Cfg::add(c.target, pick_id("tt", 3, pick("tl", 0, LEN)));
  for (int i = 0; i < nl; i++) Cfg::add(c.local, pick_id("lt", 3, pick("ll", 0, LEN)));
  auto p = proxy(c);
  auto r = p->GetBytesForS2A(pbuf(""));
  bool good = !c.client || c.local.size() <= 1;
  CHECK(r.status.ok() == good, "a client with several local identities is rejected, others are accepted");
  CHECK((r.buffer != nullptr) == good, "bytes are returned on success only");
  if (good) { check_start(c, "", text(*r.buffer)); REACH("start"); }
  else REACH("rejected");
#elif MODE == 2   // peer bytes of start and next requests
  Cfg c;
  c.client = flag("client");
  auto p = proxy(c);
  static const uint32_t sizes[] = {1, 5, 127, 128, 300};
  std::string first = c.client ? "" : symstr("b0", pick_of("n0", sizes));
  auto r = p->GetBytesForS2A(pbuf(first));
  CHECK(r.status.ok() && r.buffer, "the start request is created");
  check_start(c, first, text(*r.buffer));
  for (int i = 0; i < 2; i++) {
    std::string b = symstr("b", pick_of("n", sizes));
    auto q = p->GetBytesForS2A(pbuf(b));
    CHECK(q.status.ok() && q.buffer && q.bytes_consumed == 0, "a next request is created");
    check_next(b, text(*q.buffer));
  }
  CHECK(!p->IsHandshakeFinished(), "sending does not finish the handshake");
  REACH("sent");
#elif MODE == 3   // resumption ticket request
  Id id = pick_id("kind", 4, pick("il", 0, 2));
  static const uint64_t conns[] = {0, 7, 128, 0x80000001ull, 0x8000000000000002ull, ~0ull};
  uint64_t conn = conns[pick("conn", 0, 5)];
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t;
  bool null = flag("null");
  int k = null ? 0 : pick("tickets", 0, 3);
  std::vector<std::string> want;
  if (!null) t.reset(new std::vector<std::unique_ptr<std::string>>());
  for (int i = 0; i < k; i++) { want.push_back(symstr("t", pick("tl", 0, 2))); t->push_back(std::unique_ptr<std::string>(new std::string(want.back()))); }
  upb::Arena arena;
  s2a_proto_SessionReq *req = s2a_proto_SessionReq_new(arena.ptr());
  Identity ident = make(id);   // outlives the request
  bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(conn, ident, t, arena.ptr(), req);
  CHECK(ok == (!null && id.t != IdentityType::NONE), "prepared exactly when there are tickets and an identity");
  if (ok) {
    size_t n = 0;
    char *b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
    std::string inner;
    request(std::string(b, n), 4, &inner);
    Msg m(inner);
    CHECK(m.only({1, 2, 3}), "a well-formed ticket request");
    auto got = m.strs(1);
    CHECK(got.size() == want.size(), "every ticket once");
    for (size_t i = 0; i < got.size(); i++) CHECK(eqs(got[i], want[i]), "the tickets unchanged, in order");
    CHECK(m.num(2) == conn && eq(parse_id(m.str(3)), id), "the connection id and the local identity");
    REACH("prepared");
  } else REACH("refused");
#elif MODE == 10   // tokens over a handshake
  tokens.clear();
  fetched = fetched_default = 0;
  Cfg c;
  c.client = flag("client");
  bool managed = pick("manager", 0, 4) != 0;
  int nl = pick("locals", 0, c.client ? 1 : LOCALS);
  for (int i = 0; i < nl; i++) Cfg::add(c.local, pick_id("lt", KINDS, 1));
  for (auto &i : c.local) { bool ok = flag("ok"); tokens.push_back({i, ok, symstr("tok", 1 + (tokens.size() & 1))}); }
  default_ok = flag("default");
  default_token = symstr("dtok", 1);
  auto p = proxy(c, managed ? std::unique_ptr<TokenManager>(new Manager()) : nullptr);
  std::vector<std::pair<Id, std::string>> all;
  if (managed) {
    for (auto &t : tokens) if (t.ok) all.push_back({t.id, t.token});
    if (c.local.empty() && default_ok) all.push_back({{IdentityType::NONE, ""}, default_token});
  }
  auto r = p->GetBytesForS2A(pbuf(""));
  CHECK(r.status.ok(), "the start request is created");
  check_auth(text(*r.buffer), all);
  if (!managed) { CHECK(auths(text(*r.buffer)).empty(), "no token manager, no authentication"); REACH("unmanaged"); }
  auto before = all;
  for (int step = 0; step < STEPS; step++) {
    // the S2A may select one of the identities or another one
    Resp s;
    s.result = false;
    int sel = pick("select", 0, (int)c.local.size() + 1);
    s.sel = sel != 0;
    bool found = false;
    std::string tok;
    if (sel) {
      if (sel <= (int)c.local.size()) { s.selected = c.local[sel - 1]; found = tokens[sel - 1].ok; tok = tokens[sel - 1].token; }
      else {
        s.selected = pick_id("other", KINDS, 1);
        for (auto &i : c.local) if (eq(i, s.selected)) return;
        if (tokens.size() == c.local.size()) tokens.push_back({s.selected, flag("ook"), symstr("otok", 1)});
        for (auto &t : tokens) if (eq(t.id, s.selected)) { found = t.ok; tok = t.token; }
      }
    }
    auto q = p->GetBytesForPeer(pbuf(s.wire()));
    CHECK(q.status.ok(), "a response that selects an identity is accepted");
    auto n = p->GetBytesForS2A(pbuf("x"));
    CHECK(n.status.ok(), "a next request is created");
    if (managed && s.sel && found) {
      before.clear();
      before.push_back({s.selected, tok});
      REACH("selected");
    } else if (managed && s.sel) {
      // no token for the selected identity: the others are offered
      for (auto &a : all) { bool have = false; for (auto &b : before) have = have || eq(a.first, b.first); if (!have) before.push_back(a); }
      REACH("fallback");
    } else if (step && managed) {
      return;   // nothing new was selected: covered by the first step
    }
    check_auth(text(*n.buffer), before);
  }
  sx_observe("fetched", fetched << 8 | fetched_default);
#elif MODE == 20   // call sequences
  Cfg c;
  c.client = flag("client");
  auto p = proxy(c);
  bool started = false, finished = false;
  for (int step = 0; step < STEPS; step++) {
    int op = pick("op", 0, 4);
    if (op == 0 || op == 1) {   // bytes for the S2A
      std::string peer = op ? "ab" : "";
      auto r = p->GetBytesForS2A(op == 0 && flag("null") ? nullptr : pbuf(peer));
      bool good = started ? !peer.empty() : !(c.client && !peer.empty());
      CHECK(r.status.ok() == good, "a start first, a client's without peer bytes; peer bytes afterwards");
      CHECK((r.buffer != nullptr) == good && r.bytes_consumed == 0, "bytes on success only");
      if (good) {
        if (started) check_next(peer, text(*r.buffer)); else check_start(c, peer, text(*r.buffer));
        started = true;
      }
    } else if (op == 2 || op == 3) {   // a response
      Resp s;
      s.result = op == 3;
      s.frames = "out";
      s.inkey = s.outkey = std::string(32, 'k');
      int bad = pick("bad", 0, op == 3 ? 7 : 2);
      if (bad == 1) s.status = false;
      if (bad == 2) s.code = 3;
      if (bad == 3) s.state = false;
      if (bad == 4) s.version = 2;
      if (bad == 5) s.cs = 3;
      if (bad == 6) s.local_id = false;
      if (bad == 7) s.peer_id = false;   // allowed
      auto q = p->GetBytesForPeer(pbuf(s.wire()));
      bool good = s.success() && (!s.result || s.complete());
      CHECK(q.status.ok() == good, "an error status or an invalid result is an error");
      CHECK((q.buffer != nullptr) == good, "bytes on success only");
      if (good) CHECK(eqs(text(*q.buffer), "out"), "the S2A's bytes");
      if (good && s.result) { finished = true; REACH("finished"); }
      else if (s.result && s.success()) {
        // a later invalid result must not pass for a finished handshake; it may end one
        CHECK(finished || !p->IsHandshakeFinished(), "an invalid result does not finish the handshake");
        if (finished) return;
        REACH("invalid");
      }
    } else {
      auto q = p->GetBytesForPeer(flag("null") ? nullptr : pbuf(""));
      CHECK(!q.status.ok() && !q.buffer, "no bytes from the S2A is an error");
    }
    CHECK(p->IsHandshakeFinished() == finished, "finished exactly after a successful response with a complete valid result");
  }
  auto fp = p->CreateFrameProtector();
  CHECK(fp.ok() == finished, "a frame protector is handed out exactly when finished");
  if (fp.ok()) CHECK(*fp != nullptr, "a frame protector is handed out");
  for (int i = 0; i < 2; i++) {
    auto ctx = p->GetS2AContext();
    CHECK((ctx.index() == 1) == finished, "a context is handed out exactly when finished");
    if (ctx.index() == 1) CHECK(absl::get<1>(ctx) != nullptr, "a context is handed out");
  }
  if (!finished) REACH("unfinished");
#elif MODE == 21   // any bytes from the S2A
  Cfg c;
  auto p = proxy(c);
  size_t n = pick("n", 1, LEN);
  std::string b = symstr("bytes", n);
  auto q = p->GetBytesForPeer(pbuf(b));
  CHECK((q.buffer != nullptr) == q.status.ok(), "bytes on success only");
  CHECK(!p->IsHandshakeFinished(), "too few bytes for a result never finish the handshake");
  CHECK(!p->CreateFrameProtector().ok() && p->GetS2AContext().index() == 0, "nothing is handed out");
  if (q.status.ok()) REACH("accepted"); else REACH("rejected");
#elif MODE == 22   // a valid response with bytes changed or missing
  Cfg c;
  auto p = proxy(c);
  Resp s;
  s.proto = "";
  std::string b = s.wire();
  if (flag("cut")) b.resize(pick("len", 1, b.size() - 1));
  else b[pick("at", 0, b.size() - 1)] = (char)sym8("byte");
  auto q = p->GetBytesForPeer(pbuf(b));
  CHECK((q.buffer != nullptr) == q.status.ok(), "bytes on success only");
  bool fin = p->IsHandshakeFinished();
  CHECK(!fin || q.status.ok(), "an error never finishes the handshake");
  auto ctx = p->GetS2AContext();
  CHECK((ctx.index() == 1) == fin && (!fin || absl::get<1>(ctx) != nullptr), "a context exactly when finished");
  if (!fin) CHECK(!p->CreateFrameProtector().ok(), "no frame protector before the end");
  if (fin) { CHECK((int)absl::get<1>(ctx)->TlsVersion() <= 1 && (int)absl::get<1>(ctx)->Ciphersuite() <= 2, "supported values only"); REACH("finished"); }
  else REACH("not finished");
#elif MODE == 30   // the result is used exactly
  Cfg c;
  c.client = flag("client");
  c.addr = "s2a";
  auto p = proxy(c);
  CHECK(p->GetBytesForS2A(nullptr).status.ok(), "started");
  static const uint64_t seqs[] = {0, 1, 300, 0x8000000000ull, 0xfffffffffffffff0ull};
  Suite su = suite(pick("suite", 0, 2));
  int q = pick("seq", 0, 4);
  Dir in(su, 0x40, seqs[q]), out(su, 0x90, seqs[(q + 2) % 5]);
  Resp s;
  s.version = 1;
  s.cs = su.alg == cm::AES128 ? 0 : su.alg == cm::AES256 ? 1 : 2;
  s.inseq = in.seq;
  s.outseq = out.seq;
  s.inkey.assign((char *)in.secret, su.hash);
  s.outkey.assign((char *)out.secret, su.hash);
  s.conn = seqs[(q + 1) % 5] + 5;
  s.local = {type_of(pick("lt", 0, 2)), symtext("lid", 2)};
  s.peer = {IdentityType::SPIFFE_ID, "p"};
  s.frames = symstr("frames", 2);
  s.consumed = 77;
  if (flag("selected")) { s.sel = true; s.selected = {IdentityType::HOSTNAME, "sel"}; }
  auto r = p->GetBytesForPeer(pbuf(s.wire()));
  CHECK(r.status.ok() && r.bytes_consumed == 77 && eqs(text(*r.buffer), s.frames), "frames and consumed count are returned unchanged");
  auto fpr = p->CreateFrameProtector();
  CHECK(fpr.ok(), "a frame protector is handed out");
  auto &f = *fpr;
  // the peer's record opens, ours is sealed as the S2A said
  auto data = symvec("data", 2);
  auto rec = in.msg(23, data);
  auto u = f->Unprotect({{rec.data(), rec.size()}});
  CHECK(u.status.ok() && u.bytes.size() == 1 && u.bytes[0].iov_len == 2 && same(u.bytes[0].iov_base, data.data(), 2), "the in key and in sequence open the peer's record");
  for (auto &b : u.bytes) delete[] (uint8_t *)b.iov_base;
  auto w = f->Protect({{data.data(), data.size()}});
  auto want = out.msg(23, data);
  CHECK(w.status.ok() && w.bytes.size() == 1 && w.bytes[0].iov_len == want.size() && same(w.bytes[0].iov_base, want.data(), want.size()), "the out key and out sequence seal our record");
  for (auto &b : w.bytes) delete[] (uint8_t *)b.iov_base;
  // tickets go out under the connection's id and identity
  std::vector<uint8_t> t = {4, 0, 0, 1, 9};
  auto tr = in.msg(22, t);
  auto v = f->Unprotect({{tr.data(), tr.size()}});
  CHECK(v.status.ok(), "a ticket is accepted");
  for (auto &b : v.bytes) delete[] (uint8_t *)b.iov_base;
  auto dr = in.msg(23, data);
  v = f->Unprotect({{dr.data(), dr.size()}});
  CHECK(v.status.ok(), "data after the ticket");
  for (auto &b : v.bytes) delete[] (uint8_t *)b.iov_base;
  fpr = absl::Status(absl::StatusCode::kInternal, "");
  CHECK(sent.calls == 1 && sent.id == s.conn && eqs(sent.url, "s2a") && sent.type == s.local.t && eqs(sent.ident, s.local.s), "tickets are sent with the connection id, address and local identity of the session");
  REACH("used");
#elif MODE == 31   // the context is exactly the result
  Cfg c;
  c.client = flag("client");
  c.proto = "conf";
  auto p = proxy(c);
  Resp s;
  s.version = pick("version", 0, 1);
  s.cs = pick("cs", 0, 2);
  s.proto = symtext("proto", pick("np", 0, 2));
  s.lfp = symstr("lfp", pick("nl", 0, 2));
  s.pfp = symstr("pfp", pick("npf", 0, 2));
  s.resumed = flag("resumed");
  s.peer_id = flag("peer");
  s.peer = pick_id("pt", 4, 1);
  s.local = pick_id("lt", 4, 1);
  s.inkey = s.outkey = std::string(s.cs == 1 ? 48 : 32, 'k');
  if (!s.peer_id && s.peer.t != IdentityType::NONE) return;
  s.sel = flag("selected");
  auto r = p->GetBytesForPeer(pbuf(s.wire()));
  CHECK(r.status.ok() && r.bytes_consumed == 0 && r.buffer && r.buffer->empty(), "a complete result is accepted");
  auto cs = p->GetS2AContext();
  CHECK(cs.index() == 1, "a context is handed out");
  auto &x = absl::get<1>(cs);
  CHECK(eqs(x->ApplicationProtocol(), s.proto) && (uint64_t)x->TlsVersion() == s.version && (uint64_t)x->Ciphersuite() == s.cs, "protocol, version and ciphersuite of the result");
  CHECK(eqs(x->PeerCertFingerprint(), s.pfp) && eqs(x->LocalCertFingerprint(), s.lfp) && x->IsHandshakeResumed() == s.resumed, "fingerprints and resumption of the result");
  CHECK(eq(id_of(x->PeerIdentity()), s.peer) && eq(id_of(x->LocalIdentity()), s.local), "identities of the result");
  REACH("context");
#elif MODE == 32   // frames and consumed count
  Cfg c;
  auto p = proxy(c);
  Resp s;
  s.result = false;
  static const uint32_t sizes[] = {0, 1, 127, 128, 400};
  s.frames = symstr("frames", pick_of("n", sizes));
  s.consumed = sym32("consumed");
  auto r = p->GetBytesForPeer(pbuf(s.wire()));
  CHECK(r.status.ok() && r.bytes_consumed == s.consumed && r.buffer && eqs(text(*r.buffer), s.frames), "frames and consumed count are returned unchanged");
  REACH("returned");
#elif MODE == 33   // key lengths: never a frame protector with keys that do not fit the ciphersuite
  Cfg c;
  auto p = proxy(c);
  Resp s;
  s.version = pick("version", 0, 1);
  s.cs = pick("cs", 0, 2);
  static const uint32_t lens[] = {0, 16, 31, 32, 33, 47, 48, 49};
  uint32_t a = pick_of("in", lens), b = pick_of("out", lens);
  s.inkey.assign(a, 'i');
  s.outkey.assign(b, 'o');
  CHECK(p->GetBytesForPeer(pbuf(s.wire())).status.ok(), "accepted");
  auto f = p->CreateFrameProtector();
  uint32_t need = s.cs == 1 ? 48 : 32;
  CHECK(f.ok() == (s.version == 1 && a == need && b == need), "keys that do not fit the ciphersuite, or TLS 1.2, give no frame protector");
  if (f.ok()) REACH("fits"); else REACH("does not fit");
#endif
#if MODE >= 10 && MODE < 20
  tokens = std::vector<Tok>();
  default_token = std::string();
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
