// C10: HkdfDeriveSecret is RFC 5869 HKDF-Expand.
#include "h.h"
#include "src/crypto/hkdf.h"
using s2a::hkdf::HashFunction;
using s2a::hkdf::HkdfDeriveSecret;
#ifndef MODE
#define MODE 0
#endif
static HashFunction hf(int md) {
  return md == 1 ? HashFunction::SHA256_hash_function : md == 2 ? HashFunction::SHA384_hash_function : static_cast<HashFunction>(77);
}
static bool derive(int md, size_t prklen, size_t infolen, size_t outlen, int fail_at) {
  cm::reset();
  cm::fail_at = fail_at;
  int64_t live0 = sx_live_allocs();
  bool ok;
  {
    std::vector<uint8_t> prk = symvec("prk", prklen), info = symvec("info", infolen);
    std::vector<uint8_t> out(outlen, 0x5a);
    std::vector<uint8_t> prk0 = prk, info0 = info;
    absl::Status st = HkdfDeriveSecret(hf(md), prk, info, out);
    ok = st.ok();
    sx_observe("ok", ok);
    CHECK(out.size() == outlen, "output buffer keeps its size");
    CHECK(prk == prk0 && info == info0, "inputs are not modified");
    size_t d = md == 2 ? 48 : 32;
    bool valid = (md == 1 || md == 2) && prklen >= d && outlen <= 255 * d;
    bool failed = fail_at != 0 && cm::calls >= fail_at;
    if (!valid) CHECK(!ok, "invalid argument is an error");
    if (failed) CHECK(!ok, "a failing HMAC call is an error");
    if (valid && !failed) CHECK(ok, "valid derivation succeeds");
    CHECK(cm::live_ctx == 0, "no HMAC context is leaked");
    if (ok) {
      std::vector<uint8_t> want(outlen, 0);
      cm::fail_at = 0;
      cm::hkdf(md, prk.data(), prklen, info.data(), infolen, want.data(), outlen);
      CHECK(same(out.data(), want.data(), outlen), "output is T(1)|T(2)|... of RFC 5869");
      sx_observe("out", fold(out.data(), outlen));
    }
  }
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
  return ok;
}
extern "C" void sx_main() {
  cm::symbolic_mac = MODE != 2;
#if MODE == 0   // one dimension at a time over its range
  int md = pick("md", 1, 2);
  size_t d = md == 2 ? 48 : 32;
  switch (pick("dim", 0, 2)) {
    case 0: derive(md, d, 3, pick("outlen", 0, 3 * d + 2), 0); REACH("lengths"); break;
    case 1: {
      static const uint32_t lens[] = {0, 1, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80};
      static const uint32_t outs[] = {0, 1, 33, 49};
      size_t n = pick_of("prklen", lens);
      if (derive(md, n, 2, pick_of("outlen", outs), 0)) REACH("accepted"); else REACH("rejected");
      break;
    }
    case 2: {
      static const uint32_t outs[] = {12, 32, 48, 49};
      derive(md, d, pick("infolen", 0, 24), pick_of("outlen", outs), 0);
      REACH("infos");
      break;
    }
  }
#elif MODE == 1  // a library call fails
  int md = pick("md", 0, 2);
  static const uint32_t outs[] = {0, 1, 32, 49, 97};
  size_t o = pick_of("outlen", outs);
  if (derive(md, 48, 2, o, pick("fail_at", 0, 16))) REACH("ok"); else REACH("error");
#elif MODE == 2  // the 255-block limit
  int md = pick("md", 1, 2);
  size_t d = md == 2 ? 48 : 32;
  static const uint32_t k[] = {0, 1, 2, 3};
  size_t o = 255 * d - 1 + pick_of("over", k);
  if (derive(md, d, 1, o, 0)) REACH("max"); else REACH("too long");
#elif MODE == 3  // full product (thorough)
  int md = pick("md", 1, 2);
  size_t d = md == 2 ? 48 : 32;
  static const uint32_t pl[] = {0, 1, 2, 16};
  size_t p = pick_of("prk", pl);
  derive(md, d + p, pick("infolen", 0, 20), pick("outlen", 0, 4 * d + 1), 0);
  REACH("all");
#endif
}
