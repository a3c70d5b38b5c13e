// Record layer helpers: an independent TLS 1.3 peer built on the crypto oracle.
#pragma once
#include "h.h"
#include "include/s2a_channel_factory_interface.h"
#include "include/s2a_options.h"
#include "src/record_protocol/s2a_crypter.h"
using s2a::aead_crypter::Iovec;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_options::S2AOptions;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef S2ACrypter::RecordType RecordType;
typedef S2AOptions::Ciphersuite Ciphersuite;
typedef S2AOptions::TlsVersion TlsVersion;
typedef S2AOptions::Identity Identity;

struct Suite { Ciphersuite cs; int alg, md; size_t hash, key; };
inline Suite suite(int i) {
  if (i == 0) return {Ciphersuite::AES_128_GCM_SHA256, cm::AES128, 1, 32, 16};
  if (i == 1) return {Ciphersuite::AES_256_GCM_SHA384, cm::AES256, 2, 48, 32};
  return {Ciphersuite::CHACHA20_POLY1305_SHA256, cm::CHACHA, 1, 32, 32};
}
// One direction as RFC 8446 has it.
struct Dir {
  Suite s;
  uint8_t secret[48];
  uint8_t key[32], iv[12];
  uint64_t seq;
  Dir(const Suite &su, uint8_t fill, uint64_t q) : s(su), seq(q) { for (int i = 0; i < 48; i++) secret[i] = (uint8_t)(fill + i); derive(); }
  Dir(const Suite &su, const char *name, uint64_t q) : s(su), seq(q) { sx_make_symbolic(secret, su.hash, name); derive(); }
  void derive() {
    cm::expand_label(s.md, secret, s.hash, "key", key, s.key);
    cm::expand_label(s.md, secret, s.hash, "iv", iv, 12);
  }
  void update() {
    uint8_t n[48];
    cm::expand_label(s.md, secret, s.hash, "traffic upd", n, s.hash);
    memcpy(secret, n, s.hash);
    derive();
    seq = 0;
  }
  void nonce(uint8_t *o) const {
    memcpy(o, iv, 12);
    for (int i = 0; i < 8; i++) o[4 + i] ^= (uint8_t)(seq >> (56 - 8 * i));
  }
  std::vector<uint8_t> vec() const { return std::vector<uint8_t>(secret, secret + s.hash); }
  // the record with this inner plaintext (content, type, padding) under the current number
  std::vector<uint8_t> seal(const uint8_t *inner, size_t n) {
    std::vector<uint8_t> r(5 + n + 16);
    r[0] = 0x17; r[1] = 3; r[2] = 3; r[3] = (uint8_t)((n + 16) >> 8); r[4] = (uint8_t)(n + 16);
    uint8_t no[12];
    nonce(no);
    cm::seal(s.alg, key, no, r.data(), 5, inner, n, r.data() + 5);
    seq++;
    return r;
  }
  std::vector<uint8_t> seal(const std::vector<uint8_t> &inner) { return seal(inner.data(), inner.size()); }
  std::vector<uint8_t> msg(uint8_t type, const std::vector<uint8_t> &content) {
    auto v = content;
    v.push_back(type);
    return seal(v);
  }
  // is this logged operation under the current key and number, with this header?
  bool is(const cm::Op &o, int enc, const uint8_t *header) const {
    uint8_t no[12];
    nonce(no);
    return (o.enc == enc) & (o.alg == s.alg) & (o.keylen == (int)s.key) & same(o.key, key, s.key) & (o.ivlen == 12) & same(o.iv, no, 12) & (o.aadlen == 5) & same(o.aad, header, 5);
  }
};
// ---- ticket sender stand-in
struct Sent { bool got; int calls, waits; std::string url; uint64_t id; S2AOptions::IdentityType type; std::string ident; std::vector<std::string> tickets; void *factory, *options; };
static Sent sent;
inline bool waiter() { sent.waits++; return true; }
inline s2a::s2a_ticket_sender::WaitOnTicketSender sender(s2a::s2a_ticket_sender::TicketSenderOptions &o) {
  sent.calls++;
  sent.url = o.handshaker_service_url;
  sent.id = o.connection_id;
  sent.type = o.local_identity.GetIdentityType();
  sent.ident = o.local_identity.GetIdentityString();
  sent.tickets.clear();
  if (o.tickets) for (auto &t : *o.tickets) sent.tickets.push_back(*t);
  sent.factory = o.channel_factory.get();
  sent.options = o.channel_options.get();
  return waiter;
}
static int live_factories;
struct Factory : s2a::s2a_channel::S2AChannelFactoryInterface {
  Factory() { live_factories++; }
  ~Factory() override { live_factories--; }
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface *) override { return absl::Status(absl::StatusCode::kInternal, ""); }
};
typedef s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface ChannelOptions;
typedef std::unique_ptr<S2ACrypter> Crypter;
inline Crypter connect(const Dir &in, const Dir &out, const char *url = "url", uint64_t id = 7, const Identity &ident = Identity::FromUid("u")) {
  auto r = S2ACrypter::Create(TlsVersion::TLS1_3, in.s.cs, id, url, ident, in.vec(), out.vec(), in.seq, out.seq, sender, nullptr, nullptr, [](const std::string &) {});
  CHECK(r.index() == 1, "a connection with valid arguments is created");
  return std::move(absl::get<1>(r));
}
// data in up to three buffers of exactly the right size
struct Pieces {
  std::vector<Buf> bufs;
  std::vector<Iovec> v;
  Pieces() { bufs.reserve(8); }
  void add(const uint8_t *p, size_t n, bool null_if_empty = true) {
    bufs.emplace_back(n);
    if (n) memcpy(bufs.back().p, p, n);
    v.push_back({n == 0 && null_if_empty ? nullptr : bufs.back().p, n});
  }
  void cut(const uint8_t *p, size_t n, size_t a, size_t b) { add(p, a); add(p + a, b - a, false); add(p + b, n - b); }
  bool unchanged(const uint8_t *p) const {
    size_t k = 0;
    bool eq = true;
    for (auto &b : bufs) { eq = eq & same(b.p, p + k, b.n); k += b.n; }
    return eq;
  }
};
struct Got { Code code; size_t n; std::vector<uint8_t> out; bool zero; };
inline Got unprotect(Crypter &c, const std::vector<uint8_t> &rec, size_t outlen, size_t cut1 = 1u << 30, size_t cut2 = 1u << 30) {
  Buf h(5);
  memcpy(h.p, rec.data(), 5);
  size_t n = rec.size() - 5;
  Pieces p;
  if (cut1 > n) cut1 = n;
  if (cut2 > n) cut2 = n;
  if (cut2 < cut1) cut2 = cut1;
  p.cut(rec.data() + 5, n, cut1, cut2);
  Buf out(outlen);
  auto st = c->Unprotect({h.p, 5}, p.v, {out.p, outlen});
  Got g;
  g.code = st.GetCode();
  g.n = st.GetBytesWritten();
  CHECK(same(h.p, rec.data(), 5) & p.unchanged(rec.data() + 5), "the record is not modified");
  CHECK(g.n <= outlen, "no more bytes reported than fit");
  if (g.code != Code::OK) CHECK(g.n == 0, "an error reports zero bytes");
  g.out.assign(out.p, out.p + g.n);
  g.zero = zeros(out.p, outlen);
  sx_observe("u", (uint64_t)g.code << 32 | g.n);
  return g;
}
inline Got unprotect(Crypter &c, const std::vector<uint8_t> &rec) { return unprotect(c, rec, rec.size() - 21); }
// protect data; the record is returned in out
inline Got protect(Crypter &c, RecordType t, const std::vector<uint8_t> &data, size_t cut1 = 1u << 30) {
  size_t n = data.size();
  if (cut1 > n) cut1 = n;
  Pieces p;
  p.cut(data.data(), n, cut1, n);
  Buf out(n + 22);
  auto st = c->Protect(t, p.v, {out.p, out.n});
  Got g;
  g.code = st.GetCode();
  g.n = st.GetBytesWritten();
  CHECK(p.unchanged(data.data()), "the plaintext is not modified");
  if (g.code != Code::OK) CHECK(g.n == 0, "an error reports zero bytes");
  else CHECK(g.n == n + 22, "bytes written are header, plaintext, type and tag");
  g.out.assign(out.p, out.p + g.n);
  sx_observe("p", (uint64_t)g.code << 32 | g.n);
  return g;
}
inline bool vsame(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
// ---- the handshake stream as RFC 8446 has it: what a prefix of it means
struct Stream {
  std::vector<uint8_t> rest;                   // bytes of the message still open
  std::vector<std::vector<uint8_t>> tickets;   // complete ones, in order
  int updates = 0;
  bool bad = false;
  // one record's content; bytes after a key update in the same record are an error
  void feed(const uint8_t *p, size_t n) {
    rest.insert(rest.end(), p, p + n);
    bool updated = false;
    while (!rest.empty() && !bad && !odd) {
      if (updated || (rest[0] != 4 && rest[0] != 24)) { bad = true; return; }
      if (rest.size() < 4) return;
      size_t len = (size_t)rest[1] << 16 | rest[2] << 8 | rest[3];
      if (rest[0] == 24 && len != 1) { odd = true; return; }
      if (rest.size() < 4 + len) return;
      len = sx_concretize(len);
      if (rest[0] == 24) { updates++; updated = true; if (rest[4] > 1) odd = true; }
      else tickets.push_back(std::vector<uint8_t>(rest.begin(), rest.begin() + 4 + len));
      rest.erase(rest.begin(), rest.begin() + 4 + len);
    }
  }
  bool odd = false;                            // a key update that is not well-formed: whether it is an error is open
  bool open() const { return !rest.empty(); }
};
