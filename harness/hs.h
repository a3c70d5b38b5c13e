// Handshake helpers: an S2A side that reads and writes the wire format by field
// number (proto/*.proto), independent of the generated accessors.
#pragma once
#include "rec.h"
#include "include/access_token_manager.h"
#include "include/s2a_proxy.h"
using s2a::s2a_proxy::S2AProxy;
typedef S2AOptions::IdentityType IdentityType;
typedef S2AProxy::Buffer PBuf;

struct Id { IdentityType t; std::string s; };
inline bool eqs(const std::string &a, const std::string &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
inline bool eq(const Id &a, const Id &b) { return a.t == b.t && eqs(a.s, b.s); }
inline Identity make(const Id &i) {
  switch (i.t) {
    case IdentityType::SPIFFE_ID: return Identity::FromSpiffeId(i.s);
    case IdentityType::HOSTNAME: return Identity::FromHostname(i.s);
    case IdentityType::UID: return Identity::FromUid(i.s);
    default: return Identity::GetEmptyIdentity();
  }
}
inline Id id_of(const Identity &i) { return {i.GetIdentityType(), i.GetIdentityString()}; }
inline IdentityType type_of(int k) { static const IdentityType ts[] = {IdentityType::SPIFFE_ID, IdentityType::HOSTNAME, IdentityType::UID, IdentityType::NONE}; return ts[k]; }
// what a parser of the wire format accepts as text
inline std::string symtext(const char *n, size_t len) {
  std::string s = symstr(n, len);
  for (char c : s) sx_assume((uint8_t)c < 128);
  return s;
}
// kinds 0..2, or 3 for none
inline Id pick_id(const char *what, int kinds, size_t len) { int k = pick(what, 0, kinds - 1); return k == 3 ? Id{IdentityType::NONE, ""} : Id{type_of(k), symtext("id", len)}; }
// ---- wire format, reading
struct F { uint32_t num; int wt; uint64_t v; std::string s; };
struct Msg {
  std::vector<F> f;
  bool ok = true;
  static bool varint(const char *&p, const char *e, uint64_t &v) {
    v = 0;
    for (int i = 0; i < 10; i++) {
      if (p == e) return false;
      uint8_t b = (uint8_t)sx_concretize((uint8_t)*p++);
      v |= (uint64_t)(b & 127) << (7 * i);
      if (b < 128) return true;
    }
    return false;
  }
  explicit Msg(const std::string &b) {
    const char *p = b.data(), *e = p + b.size();
    while (p < e) {
      uint64_t tag, n;
      if (!varint(p, e, tag)) { ok = false; return; }
      F x{(uint32_t)(tag >> 3), (int)(tag & 7), 0, ""};
      if (x.wt == 0) { if (!varint(p, e, x.v)) { ok = false; return; } }
      else if (x.wt == 2) {
        if (!varint(p, e, n) || n > (size_t)(e - p)) { ok = false; return; }
        x.s.assign(p, n);
        p += n;
      } else { ok = false; return; }
      f.push_back(x);
    }
  }
  uint64_t num(uint32_t n) const { uint64_t v = 0; for (auto &x : f) if (x.num == n && x.wt == 0) v = x.v; return v; }
  size_t count(uint32_t n) const { size_t k = 0; for (auto &x : f) k += x.num == n; return k; }
  std::string str(uint32_t n) const { std::string r; for (auto &x : f) if (x.num == n && x.wt == 2) r = x.s; return r; }
  std::vector<std::string> strs(uint32_t n) const { std::vector<std::string> r; for (auto &x : f) if (x.num == n && x.wt == 2) r.push_back(x.s); return r; }
  std::vector<uint64_t> nums(uint32_t n) const {
    std::vector<uint64_t> r;
    for (auto &x : f) if (x.num == n) {
      if (x.wt == 0) r.push_back(x.v);
      else { const char *p = x.s.data(), *e = p + x.s.size(); uint64_t v; while (p < e && varint(p, e, v)) r.push_back(v); }
    }
    return r;
  }
  bool only(std::initializer_list<uint32_t> l) const { for (auto &x : f) { bool k = false; for (auto n : l) k |= x.num == n; if (!k) return false; } return ok; }
};
inline Id parse_id(const std::string &b) {
  Msg m(b);
  CHECK(m.only({1, 2, 4}) && m.f.size() <= 1, "an identity has one value and nothing else");
  if (m.f.empty()) return {IdentityType::NONE, ""};
  return {m.f[0].num == 1 ? IdentityType::SPIFFE_ID : m.f[0].num == 2 ? IdentityType::HOSTNAME : IdentityType::UID, m.f[0].s};
}
// ---- wire format, writing
struct W {
  std::string b;
  W &raw(uint64_t v) { do { uint8_t c = v & 127; v >>= 7; b.push_back((char)(v ? c | 128 : c)); } while (v); return *this; }
  W &num(uint32_t n, uint64_t v) { raw(n << 3); return raw(v); }
  W &str(uint32_t n, const std::string &s) { raw(n << 3 | 2); raw(s.size()); b += s; return *this; }
};
inline std::string wire_id(const Id &i) {
  W w;
  if (i.t == IdentityType::SPIFFE_ID) w.str(1, i.s);
  if (i.t == IdentityType::HOSTNAME) w.str(2, i.s);
  if (i.t == IdentityType::UID) w.str(4, i.s);
  return w.b;
}
inline std::unique_ptr<PBuf> pbuf(const std::string &s) { return std::unique_ptr<PBuf>(new PBuf(s.begin(), s.end())); }
inline std::string text(const PBuf &b) { return std::string(b.begin(), b.end()); }
// ---- configuration
struct Cfg {
  bool client = true;
  std::string proto = "grpc", host = "h", addr = "addr";
  int minv = 1, maxv = 1;
  std::vector<int> suites;
  std::vector<Id> target, local;
  static void add(std::vector<Id> &v, const Id &i) { for (auto &x : v) if (eq(x, i)) return; v.push_back(i); }
};
typedef s2a::token_manager::AccessTokenManagerInterface TokenManager;
inline std::unique_ptr<S2AProxy> proxy(const Cfg &c, std::unique_ptr<TokenManager> tm = nullptr) {
  std::unique_ptr<S2AOptions> o(new S2AOptions());
  o->set_min_tls_version(static_cast<TlsVersion>(c.minv));
  o->set_max_tls_version(static_cast<TlsVersion>(c.maxv));
  o->set_s2a_address(c.addr);
  for (int s : c.suites) o->add_supported_ciphersuite(static_cast<Ciphersuite>(s));
  for (auto &i : c.target) {
    if (i.t == IdentityType::SPIFFE_ID) o->add_target_spiffe_id(i.s);
    if (i.t == IdentityType::HOSTNAME) o->add_target_hostname(i.s);
    if (i.t == IdentityType::UID) o->add_target_uid(i.s);
  }
  for (auto &i : c.local) {
    if (i.t == IdentityType::SPIFFE_ID) o->add_local_spiffe_id(i.s);
    if (i.t == IdentityType::HOSTNAME) o->add_local_hostname(i.s);
    if (i.t == IdentityType::UID) o->add_local_uid(i.s);
  }
  S2AProxy::S2AProxyOptions po = {[](const std::string &) {}, c.client, c.proto, c.host, std::move(o), nullptr, nullptr, std::move(tm)};
  auto p = S2AProxy::Create(po);
  CHECK(p != nullptr, "a proxy with a logger and options is created");
  return p;
}
inline bool same_ids(const std::vector<std::string> &got, const std::vector<Id> &want) {
  if (got.size() != want.size()) return false;
  bool all = true;
  std::vector<Id> g;
  for (auto &s : got) g.push_back(parse_id(s));
  for (auto &w : want) { bool any = false; for (auto &x : g) any = any | eq(x, w); all = all & any; }
  return all;
}
// the one request message in a SessionReq: which field, and its bytes
inline Msg request(const std::string &b, uint32_t which, std::string *inner) {
  Msg m(b);
  CHECK(m.only({1, 2, 3, 4, 5}), "a well-formed session request");
  for (uint32_t n = 1; n <= 4; n++) CHECK(m.count(n) == (n == which), "the request has the expected kind");
  *inner = m.str(which);
  return m;
}
// everything but tokens
inline void check_start(const Cfg &c, const std::string &peer, const std::string &bytes) {
  std::string inner;
  request(bytes, c.client ? 1 : 2, &inner);
  Msg m(inner);
  CHECK(c.client ? m.only({1, 2, 3, 4, 5, 6, 7}) : m.only({1, 2, 3, 4, 5, 6}), "a well-formed start request");
  auto ap = m.strs(1);
  CHECK(ap.size() == 1 && eqs(ap[0], c.proto), "the configured application protocol");
  CHECK(m.num(2) == (uint64_t)c.minv && m.num(3) == (uint64_t)c.maxv, "the configured TLS versions");
  auto cs = m.nums(4);
  CHECK(cs.size() == c.suites.size(), "the configured ciphersuites");
  for (size_t i = 0; i < cs.size(); i++) CHECK(cs[i] == (uint64_t)c.suites[i], "the configured ciphersuites in order");
  if (c.client) {
    CHECK(same_ids(m.strs(5), c.target), "the configured target identities");
    CHECK(same_ids(m.strs(6), c.local), "the configured local identity");
    CHECK(eqs(m.str(7), c.host), "the configured hostname");
  } else {
    CHECK(same_ids(m.strs(5), c.local), "the configured local identities");
    CHECK(eqs(m.str(6), peer), "the peer's bytes");
  }
}
inline void check_next(const std::string &peer, const std::string &bytes) {
  std::string inner;
  request(bytes, 3, &inner);
  Msg m(inner);
  CHECK(m.only({1}) && eqs(m.str(1), peer), "the peer's bytes and nothing else");
}
// ---- what the S2A answers
struct Resp {
  bool status = true, result = true, state = true, peer_id = true, local_id = true, sel = false, resumed = false;
  uint32_t code = 0, consumed = 0;
  uint64_t version = 1, cs = 0, inseq = 0, outseq = 0, conn = 0;
  std::string details, frames, proto, inkey, outkey, pfp, lfp;
  Id selected = {IdentityType::UID, "u"}, peer = {IdentityType::UID, "p"}, local = {IdentityType::UID, "l"};
  std::string wire() const {
    W w;
    if (sel) w.str(1, wire_id(selected));
    if (!frames.empty()) w.str(2, frames);
    if (consumed) w.num(3, consumed);
    if (result) {
      W r;
      if (!proto.empty()) r.str(1, proto);
      if (state) {
        W s;
        if (version) s.num(1, version);
        if (cs) s.num(2, cs);
        if (inseq) s.num(3, inseq);
        if (outseq) s.num(4, outseq);
        if (!inkey.empty()) s.str(5, inkey);
        if (!outkey.empty()) s.str(6, outkey);
        if (conn) s.num(9, conn);
        if (resumed) s.num(10, 1);
        r.str(2, s.b);
      }
      if (peer_id) r.str(4, wire_id(peer));
      if (local_id) r.str(5, wire_id(local));
      if (!lfp.empty()) r.str(6, lfp);
      if (!pfp.empty()) r.str(7, pfp);
      w.str(4, r.b);
    }
    if (status) { W s; if (code) s.num(1, code); if (!details.empty()) s.str(2, details); w.str(5, s.b); }
    return w.b;
  }
  // a successful response; with a result, one that is complete and supported
  bool success() const { return status && code == 0; }
  bool complete() const { return state && local_id && version <= 1 && cs <= 2; }
};
