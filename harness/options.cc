// C18: S2AOptions and Identity behave as values.
#include "h.h"
#include "include/s2a_options.h"
using s2a::s2a_options::S2AOptions;
typedef S2AOptions::Identity Identity;
typedef S2AOptions::IdentityType IdentityType;
#ifndef MODE
#define MODE 0
#endif
struct Id { IdentityType t; std::string s; };
static bool eq(const Id &a, const Id &b) { return a.t == b.t && a.s.size() == b.s.size() && same(a.s.data(), b.s.data(), a.s.size()); }
static Identity make(const Id &i) {
  switch (i.t) {
    case IdentityType::SPIFFE_ID: return Identity::FromSpiffeId(i.s);
    case IdentityType::HOSTNAME: return Identity::FromHostname(i.s);
    case IdentityType::UID: return Identity::FromUid(i.s);
    default: return Identity::GetEmptyIdentity();
  }
}
static Id pickId(size_t maxlen, bool none) {
  static const IdentityType ts[] = {IdentityType::SPIFFE_ID, IdentityType::HOSTNAME, IdentityType::UID, IdentityType::NONE};
  IdentityType t = ts[pick("type", 0, none ? 3 : 2)];
  if (t == IdentityType::NONE) return {t, ""};
  return {t, symstr("id", pick("len", 0, maxlen))};
}
static bool matches(const Identity &got, const Id &want) {
  std::string s = got.GetIdentityString();
  return got.GetIdentityType() == want.t && s.size() == want.s.size() && same(s.data(), want.s.data(), s.size()) &&
         same(got.GetIdentityCString(), (want.s + '\0').data(), want.s.size() + 1);
}
// A hash state that records what the hash is computed from.
struct Rec {
  std::vector<uint64_t> v;
  Rec() {}
  void put(const std::string &s) { for (char c : s) v.push_back((uint8_t)c); v.push_back(s.size()); }
  void put(absl::string_view s) { put(std::string(s)); }
  template <class T> void put(const T &t) { v.push_back((uint64_t)t); }
  static Rec combine(Rec r) { return r; }
  template <class T, class... A> static Rec combine(Rec r, const T &t, const A &...a) { r.put(t); return combine(std::move(r), a...); }
  template <class T> static Rec combine_contiguous(Rec r, const T *p, size_t n) { for (size_t i = 0; i < n; i++) r.put(p[i]); return r; }
};
static bool hash_inputs_equal(const Identity &a, const Identity &b) {
  Rec x = AbslHashValue(Rec(), a), y = AbslHashValue(Rec(), b);
  if (x.v.size() != y.v.size()) return false;
  bool e = true;
  for (size_t i = 0; i < x.v.size(); i++) e = e & (x.v[i] == y.v[i]);
  return e;
}
// ---- reference for options
struct Ref {
  std::vector<Id> local, target;
  std::vector<int> suites;
  int min = 1, max = 1;
  std::string addr;
  static void add(std::vector<Id> &v, const Id &i) {
    for (auto &x : v) if (eq(x, i)) return;
    v.push_back(i);
  }
};
static void check_set(const absl::flat_hash_set<Identity> &s, const std::vector<Id> &want) {
  CHECK(s.size() == want.size(), "a set holds each identity once");
  for (auto &w : want) {
    bool found = false;
    for (auto &g : s) found = found | matches(g, w);
    CHECK(found, "every added identity is reported with its type and value");
    CHECK(s.contains(make(w)) && s.count(make(w)) == 1, "an equal identity finds the member");
  }
}
static void check(const S2AOptions &o, const Ref &r) {
  CHECK(o.min_tls_version() == static_cast<S2AOptions::TlsVersion>(r.min) && o.max_tls_version() == static_cast<S2AOptions::TlsVersion>(r.max), "TLS versions are the last set");
  std::string a = o.s2a_address();
  CHECK(a.size() == r.addr.size() && same(a.data(), r.addr.data(), a.size()), "the address is the last set");
  auto &cs = o.supported_ciphersuites();
  CHECK(cs.size() == r.suites.size(), "every added ciphersuite is reported");
  for (size_t i = 0; i < cs.size(); i++) CHECK(static_cast<int>(cs[i]) == r.suites[i], "ciphersuites keep their order");
  check_set(o.local_identities(), r.local);
  check_set(o.target_identities(), r.target);
  sx_observe("sizes", cs.size() << 16 | o.local_identities().size() << 8 | o.target_identities().size());
}
static void mutate(S2AOptions &o, Ref &r, uint32_t op, size_t maxlen) {
  switch (op) {
    case 0: {
      Id i = pickId(maxlen, false);
      if (i.t == IdentityType::SPIFFE_ID) o.add_local_spiffe_id(i.s); else if (i.t == IdentityType::HOSTNAME) o.add_local_hostname(i.s); else o.add_local_uid(i.s);
      Ref::add(r.local, i);
      break;
    }
    case 1: {
      Id i = pickId(maxlen, false);
      if (i.t == IdentityType::SPIFFE_ID) o.add_target_spiffe_id(i.s); else if (i.t == IdentityType::HOSTNAME) o.add_target_hostname(i.s); else o.add_target_uid(i.s);
      Ref::add(r.target, i);
      break;
    }
    case 2: { int c = pick("suite", 0, 2); o.add_supported_ciphersuite(static_cast<S2AOptions::Ciphersuite>(c)); r.suites.push_back(c); break; }
    case 3: { r.min = pick("min", 0, 1); o.set_min_tls_version(static_cast<S2AOptions::TlsVersion>(r.min)); break; }
    case 4: { r.max = pick("max", 0, 1); o.set_max_tls_version(static_cast<S2AOptions::TlsVersion>(r.max)); break; }
    default: { r.addr = symstr("addr", pick("alen", 0, 2) * 9); o.set_s2a_address(r.addr); break; }
  }
}
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
#if MODE == 0   // two identities
    Id a = pickId(LEN, true), b = pickId(LEN, true);
    Identity x = make(a), y = make(b);
    CHECK(matches(x, a) && matches(y, b), "an identity reports its type and value");
    CHECK((x == y) == eq(a, b) && (y == x) == eq(a, b), "identities are equal exactly when type and value agree");
    if (eq(a, b)) { CHECK(hash_inputs_equal(x, y), "equal identities hash alike"); REACH("equal"); } else REACH("different");
    Identity c(x);
    CHECK(matches(c, a) && c == x && hash_inputs_equal(c, x), "a copy equals its source");
    Identity m(std::move(c));
    CHECK(matches(m, a), "a moved identity keeps its value");
    m = y;
    CHECK(matches(m, b) && matches(x, a) && matches(y, b), "assignment copies type and value");
    m = m;
    CHECK(matches(m, b), "self assignment keeps the value");
    absl::flat_hash_set<Identity> s;
    s.insert(x); s.insert(y); s.insert(x);
    CHECK(s.size() == (eq(a, b) ? 1 : 2), "sets treat equal identities as one member");
    CHECK(s.contains(y) && s.contains(make(a)), "set lookup finds equal identities");
    Id z = {IdentityType::UID, "!!"};
    if (!eq(a, z) && !eq(b, z)) CHECK(!s.contains(make(z)), "set lookup finds only equal identities");
#elif MODE == 1  // options: any sequence of changes
    Ref r;
    S2AOptions o;
    check(o, r);
    for (int i = 0; i < OPS; i++) mutate(o, r, pick("op", 0, 5), LEN);
    check(o, r);
    REACH("end");
#elif MODE == 2  // copy, then changes to either
    Ref r, r2;
    auto o = absl::make_unique<S2AOptions>();
    for (int i = 0; i < OPS; i++) mutate(*o, r, pick("op", 0, 5), LEN);
    std::unique_ptr<S2AOptions> c = o->Copy();
    r2 = r;
    CHECK(c != nullptr && c.get() != o.get(), "a copy is a new object");
    check(*c, r2);
    if (flag("which")) { mutate(*c, r2, pick("op", 0, 5), LEN); REACH("copy changed"); } else { mutate(*o, r, pick("op", 0, 5), LEN); REACH("source changed"); }
    check(*o, r);
    check(*c, r2);
    o.reset();
    check(*c, r2);
    std::unique_ptr<S2AOptions> d = c->Copy();
    c.reset();
    check(*d, r2);
#elif MODE == 3  // larger sets: growth of the table
    Ref r;
    S2AOptions o;
    for (int i = 0; i < 9; i++) {
      std::string s(1, (char)('a' + i));
      if (i == 4 || i == 7) s = symstr("id", 1);
      bool l = i % 4 != 3;
      if (l) { o.add_local_uid(s); Ref::add(r.local, {IdentityType::UID, s}); } else { o.add_target_hostname(s); Ref::add(r.target, {IdentityType::HOSTNAME, s}); }
    }
    check(o, r);
    auto c = o.Copy();
    check(*c, r);
    REACH("end");
#endif
  }
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
