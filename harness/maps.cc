// C20: protocol enums, ciphersuites, identities and the environment token.
#include "h.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_options.h"
#include "src/handshaker/s2a_util.h"
#include "src/record_protocol/s2a_crypter_util.h"
#include "src/token_manager/single_token_access_token_manager.h"
using s2a::s2a_options::S2AOptions;
typedef S2AOptions::Identity Identity;
typedef S2AOptions::IdentityType IdentityType;
typedef S2AOptions::Ciphersuite Ciphersuite;
typedef S2AOptions::TlsVersion TlsVersion;
extern "C" { extern const char *sx_env_name, *sx_env_value; }
#ifndef MODE
#define MODE 0
#endif
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  {
#if MODE == 0
    int v = (int)sym32("value");
    switch (pick("what", 0, 4)) {
      case 0: {   // ciphersuite -> hash function
        s2a::hkdf::HashFunction h = static_cast<s2a::hkdf::HashFunction>(9);
        absl::Status st = s2a::CiphersuiteToHashFunction(static_cast<Ciphersuite>(v), &h);
        bool known = v == (int)Ciphersuite::AES_128_GCM_SHA256 || v == (int)Ciphersuite::AES_256_GCM_SHA384 || v == (int)Ciphersuite::CHACHA20_POLY1305_SHA256;
        CHECK(st.ok() == known, "exactly the known ciphersuites have a hash function");
        if (known) {
          CHECK(h == (v == (int)Ciphersuite::AES_256_GCM_SHA384 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function), "each ciphersuite has its own hash function");
          REACH("hash");
        } else REACH("no hash");
        CHECK(!s2a::CiphersuiteToHashFunction(static_cast<Ciphersuite>(v), nullptr).ok(), "a null output is an error");
        break;
      }
      case 1: {
        auto r = s2a::s2a_util::ConvertTlsVersionToProto(static_cast<TlsVersion>(v));
        bool known = v == (int)TlsVersion::TLS1_2 || v == (int)TlsVersion::TLS1_3;
        CHECK((r.index() == 1) == known, "exactly the known TLS versions convert");
        if (!known) { CHECK(!absl::get<0>(r).ok(), "an error is reported"); REACH("no version"); break; }
        CHECK(absl::get<1>(r) == (v == (int)TlsVersion::TLS1_2 ? s2a_proto_TLS1_2 : s2a_proto_TLS1_3), "TLS version converts to its own value");
        auto b = s2a::s2a_util::ConvertFromProtoToTlsVersion(absl::get<1>(r));
        CHECK(b.index() == 1 && absl::get<1>(b) == static_cast<TlsVersion>(v), "TLS version round-trips");
        REACH("version");
        break;
      }
      case 2: {
        auto r = s2a::s2a_util::ConvertCiphersuiteToProto(static_cast<Ciphersuite>(v));
        bool known = v == (int)Ciphersuite::AES_128_GCM_SHA256 || v == (int)Ciphersuite::AES_256_GCM_SHA384 || v == (int)Ciphersuite::CHACHA20_POLY1305_SHA256;
        CHECK((r.index() == 1) == known, "exactly the known ciphersuites convert");
        if (!known) { CHECK(!absl::get<0>(r).ok(), "an error is reported"); REACH("no suite"); break; }
        CHECK(absl::get<1>(r) == (v == (int)Ciphersuite::AES_128_GCM_SHA256 ? s2a_proto_AES_128_GCM_SHA256 : v == (int)Ciphersuite::AES_256_GCM_SHA384 ? s2a_proto_AES_256_GCM_SHA384 : s2a_proto_CHACHA20_POLY1305_SHA256), "ciphersuite converts to its own value");
        auto b = s2a::s2a_util::ConvertFromProtoToCiphersuite(absl::get<1>(r));
        CHECK(b.index() == 1 && absl::get<1>(b) == static_cast<Ciphersuite>(v), "ciphersuite round-trips");
        REACH("suite");
        break;
      }
      case 3: {
        auto b = s2a::s2a_util::ConvertFromProtoToTlsVersion(static_cast<s2a_proto_TLSVersion>(v));
        bool known = v == 0 || v == 1;
        CHECK((b.index() == 1) == known, "an unknown protocol TLS version is an error");
        if (known) CHECK(absl::get<1>(b) == (v == 0 ? TlsVersion::TLS1_2 : TlsVersion::TLS1_3), "protocol TLS version converts to its own value");
        break;
      }
      case 4: {
        auto b = s2a::s2a_util::ConvertFromProtoToCiphersuite(static_cast<s2a_proto_Ciphersuite>(v));
        bool known = v >= 0 && v <= 2;
        CHECK((b.index() == 1) == known, "an unknown protocol ciphersuite is an error");
        if (known) CHECK(absl::get<1>(b) == (v == 0 ? Ciphersuite::AES_128_GCM_SHA256 : v == 1 ? Ciphersuite::AES_256_GCM_SHA384 : Ciphersuite::CHACHA20_POLY1305_SHA256), "protocol ciphersuite converts to its own value");
        break;
      }
    }
#elif MODE == 1   // identities
    upb::Arena arena;
    uint32_t t = pick("type", 0, 3);
    std::string s = symstr("id", pick("len", 0, LEN));
    Identity id = t == 0 ? Identity::GetEmptyIdentity() : t == 1 ? Identity::FromSpiffeId(s) : t == 2 ? Identity::FromHostname(s) : Identity::FromUid(s);
    auto n = s2a::s2a_util::ConvertIdentityToProto(nullptr, id);
    CHECK(n.index() == 0 && !absl::get<0>(n).ok(), "no arena is an error");
    auto r = s2a::s2a_util::ConvertIdentityToProto(arena.ptr(), id);
    CHECK(r.index() == 1, "every identity converts");
    s2a_proto_Identity *p = absl::get<1>(r);
    CHECK((p != nullptr) == (t != 0), "only the empty identity has no message");
    Identity back = s2a::s2a_util::ConvertFromProtoToIdentity(p);
    std::string bs = back.GetIdentityString();
    CHECK(back.GetIdentityType() == id.GetIdentityType(), "the identity type round-trips");
    if (t != 0) CHECK(bs.size() == s.size() && same(bs.data(), s.data(), s.size()), "the identity value round-trips");
    else CHECK(bs.empty(), "the empty identity has no value");
    if (t == 1) CHECK(s2a_proto_Identity_has_spiffe_id(p) && !s2a_proto_Identity_has_hostname(p) && !s2a_proto_Identity_has_uid(p), "a SPIFFE ID is stored as one");
    if (t == 2) CHECK(!s2a_proto_Identity_has_spiffe_id(p) && s2a_proto_Identity_has_hostname(p) && !s2a_proto_Identity_has_uid(p), "a hostname is stored as one");
    if (t == 3) CHECK(!s2a_proto_Identity_has_spiffe_id(p) && !s2a_proto_Identity_has_hostname(p) && s2a_proto_Identity_has_uid(p), "a UID is stored as one");
    REACH("end");
#elif MODE == 2   // token from the environment
    char tok[40];
    size_t n = pick("len", 0, 34);
    if (n > 6 && n < 14) n = 15;
    if (n > 17 && n < 33) n = 33;
    bool set = flag("set");
    if (n) sx_make_symbolic(tok, n, "token");
    for (size_t i = 0; i < n; i++) sx_assume(tok[i] != 0);
    tok[n] = 0;
    sx_env_name = set ? "S2A_ACCESS_TOKEN" : "S2A_OTHER";
    sx_env_value = tok;
    auto m = s2a::token_manager::BuildAccessTokenManager();
    CHECK(m.ok() && *m != nullptr, "a token manager is built");
    std::string s = symstr("id", 2);
    uint32_t t = pick("type", 0, 3);
    Identity id = t == 0 ? Identity::GetEmptyIdentity() : t == 1 ? Identity::FromSpiffeId(s) : t == 2 ? Identity::FromHostname(s) : Identity::FromUid(s);
    for (int i = 0; i < 2; i++) {
      absl::StatusOr<std::string> a = (*m)->GetToken(id), d = (*m)->GetDefaultToken();
      CHECK(a.ok() == set && d.ok() == set, "a token is returned exactly when one is configured");
      if (set) {
        CHECK(a->size() == n && same(a->data(), tok, n), "exactly the configured token for every identity");
        CHECK(d->size() == n && same(d->data(), tok, n), "exactly the configured default token");
        REACH("token");
      } else REACH("none");
    }
    sx_env_name = nullptr;
#endif
  }
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
