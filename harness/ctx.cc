// C17: the context survives serialization and rejects garbage.
#include "hs.h"
#include "include/s2a_context.h"
using s2a::s2a_context::S2AContext;
struct V { std::string proto, pfp, lfp; int ver, cs; Id peer, local; bool resumed; };
static void check(const S2AContext &x, const V &v) {
  CHECK(eqs(x.ApplicationProtocol(), v.proto), "the application protocol");
  CHECK((int)x.TlsVersion() == v.ver && (int)x.Ciphersuite() == v.cs, "version and ciphersuite");
  CHECK(eq(id_of(x.PeerIdentity()), v.peer) && eq(id_of(x.LocalIdentity()), v.local), "the identities, not exchanged");
  CHECK(eqs(x.PeerCertFingerprint(), v.pfp) && eqs(x.LocalCertFingerprint(), v.lfp), "the fingerprints, not exchanged");
  CHECK(x.IsHandshakeResumed() == v.resumed, "the resumption flag");
}
static absl::StatusOr<std::unique_ptr<S2AContext>> parse(const std::string &b) {
  Buf e(b.size());   // exactly sized: nothing beyond it is read
  if (b.size()) memcpy(e.p, b.data(), b.size());
  return s2a::s2a_context::GetS2AContextFromSerializedContext((const char *)e.p, b.size());
}
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
#if MODE == 0 || MODE == 1   // round trip
  V v;
#if MODE == 0
  v.proto = symtext("proto", pick("np", 0, 2));
  v.pfp = symstr("pfp", pick("npf", 0, 2));
  v.lfp = symstr("lfp", pick("nlf", 0, 2));
  v.ver = pick("ver", 0, 2);
  v.cs = pick("cs", 0, 3);
  v.resumed = flag("resumed");
  v.peer = {IdentityType::SPIFFE_ID, "p"};
  v.local = {IdentityType::HOSTNAME, "l"};
#else
  v.proto = "grpc";
  v.pfp = symstr("pfp", 32);
  v.lfp = symstr("lfp", 32);
  v.ver = 1;
  v.cs = 0;
  v.resumed = false;
  v.peer = pick_id("pt", 4, pick("pl", 0, 2));
  v.local = pick_id("lt", 4, pick("ll", 0, 2));
#endif
  S2AContext x(v.proto, static_cast<TlsVersion>(v.ver), static_cast<Ciphersuite>(v.cs), make(v.peer), make(v.local), v.pfp, v.lfp, v.resumed);
  check(x, v);
  auto s = x.GetSerializedContext();
  bool good = v.ver < 2 && v.cs < 3;
  CHECK((s.index() == 1) == good, "serialized exactly when version and ciphersuite are supported");
  if (good) {
    auto &b = absl::get<1>(s);
    CHECK(b != nullptr, "bytes are returned");
    auto y = parse(std::string(b->begin(), b->end()));
    CHECK(y.ok() && *y != nullptr, "a serialized context is parsed");
    check(**y, v);
    REACH("round trip");
  } else REACH("opt:refused");
#elif MODE == 2   // any field values on the wire
  V v;
  v.proto = symtext("proto", pick("np", 0, 1));
  v.pfp = symstr("pfp", pick("npf", 0, 1));
  v.lfp = symstr("lfp", 1);
  static const uint32_t vals[] = {0, 1, 2, 3, 4, 127, 128, 256, 257, 0xffffffff};
  uint32_t ver = pick_of("ver", vals), cs = pick_of("cs", vals);
  v.resumed = flag("resumed");
  v.peer = pick_id("pt", 4, 1);
  v.local = {IdentityType::UID, "l"};
  W w;
  if (!v.proto.empty()) w.str(1, v.proto);
  if (ver) w.num(2, ver == 0xffffffff ? ~0ull : ver);
  if (cs) w.num(3, cs == 0xffffffff ? ~0ull : cs);
  w.str(4, wire_id(v.peer)).str(5, wire_id(v.local)).str(6, v.pfp).str(7, v.lfp);
  if (v.resumed) w.num(8, 1);
  auto y = parse(w.b);
  bool good = ver < 2 && cs < 3;
  CHECK(y.ok() == good, "an unsupported version or ciphersuite is an error");
  if (good) { v.ver = ver; v.cs = cs; CHECK(*y != nullptr, "parsed"); check(**y, v); REACH("parsed"); } else REACH("refused");
#elif MODE == 3   // any bytes
  std::string b = symstr("bytes", pick("n", 0, LEN));
  auto y = parse(b);
  if (y.ok()) {
    CHECK(*y != nullptr && (int)(*y)->TlsVersion() <= 1 && (int)(*y)->Ciphersuite() <= 2, "supported values only");
    REACH("parsed");
  } else REACH("refused");
#elif MODE == 4   // damaged
  S2AContext x("gr", TlsVersion::TLS1_3, Ciphersuite::CHACHA20_POLY1305_SHA256, Identity::FromSpiffeId("s"), Identity::FromUid("u"), "f", "g", true);
  auto s = x.GetSerializedContext();
  CHECK(s.index() == 1, "serialized");
  std::string b(absl::get<1>(s)->begin(), absl::get<1>(s)->end());
  if (flag("cut")) b.resize(pick("len", 0, b.size() - 1));
  else b[pick("at", 0, b.size() - 1)] = (char)sym8("byte");
  auto y = parse(b);
  if (y.ok()) {
    CHECK(*y != nullptr && (int)(*y)->TlsVersion() <= 1 && (int)(*y)->Ciphersuite() <= 2, "supported values only");
    auto z = (*y)->GetSerializedContext();
    CHECK(z.index() == 1, "what was parsed can be serialized");
    REACH("parsed");
  } else REACH("refused");
#endif
  }
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
