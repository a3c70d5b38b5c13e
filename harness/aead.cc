// C09: the AEAD crypters against the AEAD oracle, for any buffer layout.
#include "h.h"
#include "src/crypto/s2a_aead_crypter.h"
using namespace s2a::aead_crypter;
#ifndef MODE
#define MODE 0
#endif
typedef std::unique_ptr<S2AAeadCrypter> Crypter;
static size_t key_size(int alg) { return alg == cm::AES128 ? 16 : 32; }
static Crypter make(int alg, const std::vector<uint8_t> &key) {
  auto r = alg == cm::CHACHA ? CreateChachaPolyAeadCrypter(key) : CreateAesGcmAeadCrypter(key);
  if (r.index() == 0) {
    CHECK(!absl::get<0>(r).ok(), "a failed creation carries an error");
    return nullptr;
  }
  return std::move(absl::get<1>(r));
}
// data as buffers of exactly the right size; a piece of length 0 may be null or not
struct Split {
  std::vector<Buf> bufs;
  std::vector<Iovec> v;
  Split() { bufs.reserve(6); }
  void add(const uint8_t *p, size_t n, bool null_if_empty = true) {
    bufs.emplace_back(n);
    if (n) memcpy(bufs.back().p, p, n);
    v.push_back({n == 0 && null_if_empty ? nullptr : bufs.back().p, n});
  }
  // three pieces at the cuts a <= b
  void three(const uint8_t *p, size_t n, size_t a, size_t b) {
    add(p, a); add(p + a, b - a, false); add(p + b, n - b);
  }
  bool unchanged(const uint8_t *p) const {
    size_t k = 0;
    bool eq = true;
    for (auto &b : bufs) { eq = eq & same(b.p, p + k, b.n); k += b.n; }
    return eq;
  }
};
static bool clean(const Buf &b) {   // no byte other than the fill or zero
  bool c = true;
  for (size_t i = 0; i < b.n; i++) c = c & ((b.p[i] == 0xA5) | (b.p[i] == 0));
  return c;
}
static bool encrypt(Crypter &c, int alg, const std::vector<uint8_t> &key, const std::vector<uint8_t> &nonce, Split &aad, const uint8_t *a, size_t al,
                    Split &pt, const uint8_t *p, size_t n, size_t outlen, bool faulty = false) {
  Buf out(outlen);
  Iovec o = {out.p, outlen};
  auto st = c->Encrypt(nonce, aad.v, pt.v, o);
  bool ok = st.GetStatus().ok();
  sx_observe("eok", ok);
  bool fits = outlen >= n + 16;
  bool failed = faulty && cm::fail_at && cm::calls >= cm::fail_at;
  if (!fits) CHECK(!ok, "a too small output is an error");
  if (failed) CHECK(!ok, "a failing library call is an error");
  if (fits && !failed) CHECK(ok, "encryption of valid arguments succeeds");
  CHECK(aad.unchanged(a) & pt.unchanged(p), "inputs are not modified");
  if (!ok) { CHECK(st.GetBytesWritten() == 0, "an error reports zero bytes"); return false; }
  CHECK(st.GetBytesWritten() == n + 16, "bytes written are plaintext plus tag");
  std::vector<uint8_t> want(n + 16);
  cm::fail_at = 0;
  cm::seal(alg, key.data(), nonce.data(), a, al, p, n, want.data());
  CHECK(same(out.p, want.data(), n + 16), "output is the AEAD sealing of the concatenated plaintext and associated data");
  return true;
}
static bool decrypt(Crypter &c, const std::vector<uint8_t> &nonce, Split &aad, const uint8_t *a, Split &ct, const uint8_t *p, size_t total, size_t outlen,
                    bool genuine, const uint8_t *want, bool faulty = false, bool null_out = false) {
  Buf out(outlen);
  Iovec o = {outlen == 0 && null_out ? nullptr : out.p, outlen};
  auto st = c->Decrypt(nonce, aad.v, ct.v, o);
  bool ok = st.GetStatus().ok();
  sx_observe("dok", ok);
  bool fits = total >= 16 && outlen >= total - 16;
  bool failed = faulty && cm::fail_at && cm::calls >= cm::fail_at;
  if (!fits) CHECK(!ok, "a missing tag or a too small output is an error");
  if (failed) CHECK(!ok, "a failing library call is an error");
  if (!genuine) CHECK(!ok, "what was not sealed under this key, nonce and associated data is rejected");
  if (fits && !failed && genuine) CHECK(ok, "decryption of a sealed message succeeds");
  CHECK(aad.unchanged(a) & ct.unchanged(p), "inputs are not modified");
  if (!ok) {
    CHECK(st.GetBytesWritten() == 0, "an error reports zero bytes");
    CHECK(clean(out), "no unauthenticated plaintext is left in the output");
    return false;
  }
  CHECK(st.GetBytesWritten() == total - 16, "bytes written are the plaintext length");
  CHECK(same(out.p, want, total - 16), "decryption returns the sealed plaintext");
  return true;
}
extern "C" void sx_main() {
  cm::symbolic_ks = true;
  int64_t live0 = sx_live_allocs();
  {
    int alg = pick("alg", 1, 3);
    auto key = symvec("key", key_size(alg));
    auto nonce = symvec("nonce", 12);
    uint8_t a[8], p[40], ct[64];
#if MODE == 0   // encryption, any split into three buffers, output sizes around the needed one
    size_t n = pick("n", 0, NMAX), al = pick("al", 0, 2);
    if (al) sx_make_symbolic(a, al, "aad");
    if (n) sx_make_symbolic(p, n, "pt");
    Split aad, pt;
    size_t c1 = pick("a1", 0, al), c2 = pick("a2", c1, al);
    aad.three(a, al, c1, c2);
    c1 = pick("p1", 0, n); c2 = pick("p2", c1, n);
    pt.three(p, n, c1, c2);
    static const uint32_t slack[] = {0, 1, 7, 2000, 1999, 1984, 1985, 1983};   // 2000-k: k bytes too small
    uint32_t s = c2 == n && c1 == 0 ? pick_of("slack", slack) : pick("slack2", 0, 1) ? 1999 : 0;
    size_t need = n + 16;
    size_t outlen = s < 1000 ? need + s : need > 2000 - s ? need - (2000 - s) : 0;
    Crypter c = make(alg, key);
    CHECK(c != nullptr, "creation with a valid key succeeds");
    CHECK(c->KeyLength() == key.size() && c->NonceLength() == 12 && c->TagLength() == 16, "advertised lengths");
    CHECK(c->MaxCiphertextAndTagLength(n) == n + 16 && c->MaxPlaintextLength(n + 16) == n, "advertised maximum lengths");
    if (encrypt(c, alg, key, nonce, aad, a, al, pt, p, n, outlen)) REACH("sealed"); else REACH("too small");
#elif MODE == 1  // decryption of a sealed message, any split of ciphertext and tag
    size_t n = pick("n", 0, NMAX), al = pick("al", 0, 1) * 2;
    if (al) sx_make_symbolic(a, al, "aad");
    if (n) sx_make_symbolic(p, n, "pt");
    cm::seal(alg, key.data(), nonce.data(), a, al, p, n, ct);
    Split aad, in;
    aad.three(a, al, al / 2, al);
    size_t total = n + 16;
    size_t c1 = pick("c1", 0, total), c2 = pick("c2", c1, total);
    in.three(ct, total, c1, c2);
    uint32_t s = pick("slack", 0, 3);    // exact, one more, one less, nothing
    size_t outlen = s == 0 ? n : s == 1 ? n + 1 : s == 2 ? (n ? n - 1 : 0) : 0;
    Crypter c = make(alg, key);
    if (decrypt(c, nonce, aad, a, in, ct, total, outlen, true, p, false, s == 3)) REACH("opened"); else REACH("too small");
#elif MODE == 2  // decryption of anything after one sealing under the same key
    size_t n = pick("n", 0, NMAX), al = 1;
    sx_make_symbolic(a, al, "aad");
    if (n) sx_make_symbolic(p, n, "pt");
    cm::seal(alg, key.data(), nonce.data(), a, al, p, n, ct);
    size_t total = pick("total", 0, NMAX + 17), al2 = pick("al2", 0, 2);
    uint8_t x[64], a2[4];
    if (total) sx_make_symbolic(x, total, "ct");
    if (al2) sx_make_symbolic(a2, al2, "aad2");
    auto nonce2 = symvec("nonce2", 12);
    Split aad, in;
    aad.three(a2, al2, 0, al2);
    size_t c1 = pick("c1", 0, 1) ? total : (total > 9 ? total - 9 : 0);
    in.three(x, total, c1 / 2, c1);
    bool genuine = al2 == al && total == n + 16 && (same(a, a2, al) & same(nonce.data(), nonce2.data(), 12) & same(x, ct, n + 16));
    Crypter c = make(alg, key);
    size_t outlen = total > 16 ? total - 16 + pick("more", 0, 1) : pick("more", 0, 1);
    if (decrypt(c, nonce2, aad, a2, in, x, total, outlen, genuine, p)) REACH("accepted"); else REACH("rejected");
#elif MODE == 3  // argument errors
    switch (pick("what", 0, 4)) {
      case 0: {   // key length
        size_t kl = pick("keylen", 0, 40);
        auto k = symvec("k", kl);
        auto r = make(alg, k);
        bool good = alg == cm::CHACHA ? kl == 32 : (kl == 16 || kl == 32);
        CHECK((r != nullptr) == good, "exactly the supported key lengths are accepted");
        if (good) REACH("key ok"); else REACH("key bad");
        break;
      }
      case 1: {   // nonce length
        size_t nl = pick("noncelen", 0, 20);
        auto nn = symvec("n", nl);
        Crypter c = make(alg, key);
        sx_make_symbolic(p, 3, "pt");
        Split e, in;
        Buf out(40);
        bool enc = flag("enc");
        cm::seal(alg, key.data(), nonce.data(), a, 0, p, 3, ct);
        if (enc) in.add(p, 3); else in.add(ct, 19);
        auto st = enc ? c->Encrypt(nn, e.v, in.v, {out.p, 40}) : c->Decrypt(nn, e.v, in.v, {out.p, 40});
        if (nl != 12) {
          CHECK(!st.GetStatus().ok() && st.GetBytesWritten() == 0, "a wrong nonce length is an error with zero bytes");
          if (!enc) CHECK(clean(out), "no plaintext is left in the output");
          REACH("nonce bad");
        }
        break;
      }
      case 2:
      case 3:
      case 4: {  // null component of non-zero length
        bool enc = flag("enc");
        Crypter c = make(alg, key);
        sx_make_symbolic(p, 4, "pt");
        sx_make_symbolic(a, 2, "aad");
        cm::seal(alg, key.data(), nonce.data(), a, 2, p, 4, ct);
        Split aad, in;
        size_t total = enc ? 4 : 20;
        aad.three(a, 2, 1, 1);
        size_t c1 = pick("c1", 0, total), c2 = pick("c2", c1, total);
        in.three(enc ? p : ct, total, c1, c2);
        Split *w = flag("which") ? &aad : &in;
        uint32_t i = pick("piece", 0, 2);
        if (w->v[i].iov_len == 0) break;
        w->v[i].iov_base = nullptr;
        Buf out(40);
        size_t ol = pick("short", 0, 1) ? 3 : 40;
        auto st = enc ? c->Encrypt(nonce, aad.v, in.v, {out.p, ol}) : c->Decrypt(nonce, aad.v, in.v, {out.p, ol});
        CHECK(!st.GetStatus().ok() && st.GetBytesWritten() == 0, "a null buffer of non-zero length is an error with zero bytes");
        if (!enc) CHECK(clean(out), "no unauthenticated plaintext is left in the output");
        REACH("null");
        break;
      }
    }
#elif MODE == 4  // one library call fails
    sx_make_symbolic(p, 3, "pt");
    sx_make_symbolic(a, 2, "aad");
    cm::seal(alg, key.data(), nonce.data(), a, 2, p, 3, ct);
    cm::calls = 0;
    cm::fail_at = pick("fail_at", 0, 12);
    Crypter c = make(alg, key);
    if (!c) { CHECK(cm::fail_at && cm::calls >= cm::fail_at, "creation fails only with the library"); REACH("no crypter"); }
    else {
      bool made = !(cm::fail_at && cm::calls >= cm::fail_at);
      CHECK(made, "a failing library call makes creation fail");
      Split aad, in;
      aad.three(a, 2, 1, 1);
      bool ok;
      if (flag("enc")) { in.three(p, 3, 1, 1); ok = encrypt(c, alg, key, nonce, aad, a, 2, in, p, 3, 19, true); }
      else { in.three(ct, 19, 1, 10); ok = decrypt(c, nonce, aad, a, in, ct, 19, 3, true, p, true); }
      if (ok) REACH("ok"); else REACH("error");
      if (!ok) {   // the crypter still works afterwards
        cm::fail_at = 0;
        Split d, i2;
        d.add(a, 2); i2.add(ct, 19);
        CHECK(decrypt(c, nonce, d, a, i2, ct, 19, 3, true, p), "usable after an error");
      }
    }
#elif MODE == 5  // a sequence of operations on one crypter
    Crypter c = make(alg, key);
    sx_make_symbolic(p, 3, "pt");
    sx_make_symbolic(a, 2, "aad");
    cm::seal(alg, key.data(), nonce.data(), a, 2, p, 3, ct);
    for (int i = 0; i < STEPS; i++) {
      Split aad, in;
      uint32_t op = pick("op", 0, 5);
      if (op == 0) { aad.add(a, 2); in.three(ct, 19, 2, 8); decrypt(c, nonce, aad, a, in, ct, 19, 3, true, p); REACH("open"); }
      else if (op == 1) { aad.add(a, 1); in.add(p, 2); auto n2 = symvec("nonce2", 12); encrypt(c, alg, key, n2, aad, a, 1, in, p, 2, 20); REACH("seal"); }
      else if (op == 2) { aad.add(a, 1); in.add(ct, 19); decrypt(c, nonce, aad, a, in, ct, 19, 3, false, p); REACH("wrong aad"); }
      else if (op == 3) { in.add(p, 3); encrypt(c, alg, key, nonce, aad, a, 0, in, p, 3, 18); REACH("short output"); }
      else if (op == 4) { aad.add(a, 2); in.add(ct, 10); decrypt(c, nonce, aad, a, in, ct, 10, 3, false, p); REACH("no tag"); }
      else { aad.add(a, 2); in.add(ct, 1); in.add(ct + 1, 18); in.v[1].iov_base = nullptr; Buf out(8); auto st = c->Decrypt(nonce, aad.v, in.v, {out.p, 8}); CHECK(!st.GetStatus().ok() && clean(out), "null piece is an error"); REACH("null"); }
    }
#elif MODE == 6  // large buffers: lengths and bounds only
    cm::length_mode = true;
    Crypter c = make(alg, key);
    static const uint32_t lens[] = {16383, 16384, 16385, 20001};
    size_t n = pick_of("len", lens);
    static const uint32_t cuts[] = {0, 1, 4096, 16383};
    size_t c1 = pick_of("cut", cuts), c2 = flag("cut2") ? n : c1;
    bool enc = flag("enc");
    size_t total = enc ? n : n + 16;
    Buf b1(c1), b2(c2 - c1), b3(total - c2);
    std::vector<Iovec> v = {{b1.p, b1.n}, {b2.p, b2.n}, {b3.p, b3.n}};
    uint32_t s = pick("slack", 0, 2);
    size_t need = enc ? n + 16 : n, outlen = s == 0 ? need : s == 1 ? need - 1 : need + 5;
    Buf out(outlen);
    auto st = enc ? c->Encrypt(nonce, {}, v, {out.p, outlen}) : c->Decrypt(nonce, {}, v, {out.p, outlen});
    CHECK(st.GetStatus().ok() == (outlen >= need), "succeeds exactly when the output is large enough");
    CHECK(st.GetBytesWritten() == (st.GetStatus().ok() ? need : 0), "exact byte count");
    if (st.GetStatus().ok()) { CHECK(cm::nops == 1 && cm::ops[0].len == n, "the whole text is processed once"); REACH("ok"); } else REACH("error");
#endif
  }
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
