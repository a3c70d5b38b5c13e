#include "cm.h"
#include <stdlib.h>
#include <string.h>
#include "sx.h"
namespace cm {
SX_MODEL Op ops[CM_OPS]; SX_MODEL int nops;
SX_MODEL Mac macs[CM_MACS]; SX_MODEL int nmacs;
SX_MODEL bool symbolic_ks, symbolic_mac, length_mode;
SX_MODEL int verdict, fail_at, calls, live_ctx;

struct Ks { int alg; uint8_t key[32]; uint8_t iv[12]; uint8_t ks[CM_CAP]; };
SX_MODEL static Ks kss[CM_OPS]; SX_MODEL static int nks;
struct Tag { int alg; uint8_t key[32]; uint8_t iv[12]; uint8_t aad[CM_CAP]; size_t aadlen; uint8_t ct[CM_CAP]; size_t len; uint8_t tag[16]; };
SX_MODEL static Tag tags[CM_OPS]; SX_MODEL static int ntags;
SX_MODEL static int mac_seq;   // distinct outputs for distinct HMAC inputs

void reset() { nops = nmacs = nks = ntags = 0; calls = 0; fail_at = 0; verdict = 0; }
int mdlen(int md) { return md == 2 ? 48 : 32; }
static uint8_t prnd(unsigned a, unsigned i) {
  unsigned x = (a + 1) * 2654435761u + (i + 1) * 40503u;
  x ^= x >> 13; x *= 2246822519u; x ^= x >> 15;
  return (uint8_t)x;
}
static bool fails() { ++calls; return fail_at != 0 && calls == fail_at; }

static void addDone(Mac &m) {
  // functional consistency and collision freedom against all earlier MACs
  for (int i = 0; i < nmacs; i++) {
    Mac &o = macs[i];
    if (&o == &m || !o.done || o.md != m.md || o.keylen != m.keylen || o.len != m.len) continue;
    if (sx_bytes_equal(o.key, m.key, m.keylen) & sx_bytes_equal(o.data, m.data, m.len)) { memcpy(m.out, o.out, sizeof m.out); m.done = 1; return; }
  }
  int n = mdlen(m.md);
  if (symbolic_mac) {
    sx_make_symbolic(m.out, n, "hmac");
    for (int i = 0; i < nmacs; i++)
      if (&macs[i] != &m && macs[i].done) sx_assume(!sx_bytes_equal(macs[i].out, m.out, 12));
  } else {
    ++mac_seq;
    for (int i = 0; i < n; i++) m.out[i] = prnd(mac_seq, i);
  }
  m.done = 1;
}
static Mac &newMac() {
  if (nmacs >= CM_MACS) sx_unmodelled("HMAC log full");
  Mac &m = macs[nmacs++];
  m.done = 0; m.len = 0; m.keylen = 0;
  return m;
}
void hmac(int md, const uint8_t *key, size_t keylen, const uint8_t *data, size_t len, uint8_t *out) {
  Mac &m = newMac();
  m.md = md;
  if (keylen > sizeof m.key || len > sizeof m.data) sx_unmodelled("HMAC oracle capacity");
  memcpy(m.key, key, keylen); m.keylen = keylen;
  memcpy(m.data, data, len); m.len = len;
  addDone(m);
  memcpy(out, m.out, mdlen(md));
}
void hkdf(int md, const uint8_t *prk, size_t prklen, const uint8_t *info, size_t infolen, uint8_t *out, size_t outlen) {
  uint8_t buf[CM_MACDATA], t[64];
  size_t tl = 0, done = 0;
  for (int i = 1; done < outlen; i++) {
    memcpy(buf, t, tl);
    memcpy(buf + tl, info, infolen);
    buf[tl + infolen] = (uint8_t)i;
    hmac(md, prk, prklen, buf, tl + infolen + 1, t);
    tl = mdlen(md);
    size_t n = outlen - done < tl ? outlen - done : tl;
    memcpy(out + done, t, n);
    done += n;
  }
}
void expand_label(int md, const uint8_t *secret, size_t n, const char *label, uint8_t *out, size_t outlen) {
  uint8_t info[64];
  size_t l = strlen(label), k = 0;
  info[k++] = (uint8_t)(outlen >> 8); info[k++] = (uint8_t)outlen;
  info[k++] = (uint8_t)(6 + l);
  memcpy(info + k, "tls13 ", 6); k += 6;
  memcpy(info + k, label, l); k += l;
  info[k++] = 0;
  hkdf(md, secret, n, info, k, out, outlen);
}

static int klen(int alg) { return alg == AES128 ? 16 : 32; }
static uint8_t *keystream(int alg, const uint8_t *key, const uint8_t *iv) {
  for (int i = 0; i < nks; i++)
    if (kss[i].alg == alg && (sx_bytes_equal(kss[i].key, key, klen(alg)) & sx_bytes_equal(kss[i].iv, iv, 12))) return kss[i].ks;
  if (nks >= CM_OPS) sx_unmodelled("keystream log full");
  Ks &k = kss[nks];
  k.alg = alg; memcpy(k.key, key, klen(alg)); memcpy(k.iv, iv, 12);
  if (symbolic_ks) sx_make_symbolic(k.ks, CM_CAP, "ks");
  else for (int i = 0; i < CM_CAP; i++) k.ks[i] = prnd(1000 + nks, i);
  return kss[nks++].ks;
}
static Tag *findTag(int alg, const uint8_t *key, const uint8_t *iv, const uint8_t *aad, size_t aadlen, const uint8_t *ct, size_t n) {
  for (int i = 0; i < ntags; i++) {
    Tag &t = tags[i];
    if (t.alg != alg || t.aadlen != aadlen || t.len != n) continue;
    if (sx_bytes_equal(t.key, key, klen(alg)) & sx_bytes_equal(t.iv, iv, 12) & sx_bytes_equal(t.aad, aad, aadlen) & sx_bytes_equal(t.ct, ct, n)) return &t;
  }
  return 0;
}
static Tag *makeTag(int alg, const uint8_t *key, const uint8_t *iv, const uint8_t *aad, size_t aadlen, const uint8_t *ct, size_t n) {
  if (Tag *t = findTag(alg, key, iv, aad, aadlen, ct, n)) return t;
  if (ntags >= CM_OPS) sx_unmodelled("tag log full");
  Tag &t = tags[ntags];
  t.alg = alg; memcpy(t.key, key, klen(alg)); memcpy(t.iv, iv, 12);
  memcpy(t.aad, aad, aadlen); t.aadlen = aadlen; memcpy(t.ct, ct, n); t.len = n;
  if (symbolic_ks) sx_make_symbolic(t.tag, 16, "tag");
  else for (int i = 0; i < 16; i++) t.tag[i] = prnd(5000 + ntags, i);
  ntags++;
  return &t;
}
void seal(int alg, const uint8_t *key, const uint8_t iv[12], const uint8_t *aad, size_t aadlen, const uint8_t *pt, size_t n, uint8_t *o) {
  uint8_t *ks = keystream(alg, key, iv);
  for (size_t i = 0; i < n; i++) o[i] = pt[i] ^ ks[i];
  Tag *t = makeTag(alg, key, iv, aad, aadlen, o, n);
  memcpy(o + n, t->tag, 16);
}
static Op *newOp() {
  if (nops >= CM_OPS) sx_unmodelled("AEAD log full");
  Op *o = &ops[nops++];
  memset(o, 0, sizeof *o);
  return o;
}
static bool verify(Op &o) {
  if (verdict == 1) {
    uint8_t v;
    sx_make_symbolic(&v, 1, "verdict");
    return v & 1;
  }
  if (length_mode) return true;
  if (o.taglen == 0) return true;
  Tag *t = findTag(o.alg, o.key, o.iv, o.aad, o.aadlen, o.in, o.len);
  return t && sx_bytes_equal(t->tag, o.tag, o.taglen);
}
static void text(Op &o, uint8_t *out, const uint8_t *in, size_t n) {
  if (length_mode) {
    sx_check_range(in, n, 0);
    sx_check_range(out, n, 1);
    o.len += n;
    return;
  }
  if (o.len + n > CM_CAP) sx_unmodelled("AEAD text capacity");
  uint8_t *ks = keystream(o.alg, o.key, o.iv);
  memcpy(o.in + o.len, in, n);
  for (size_t i = 0; i < n; i++) o.out[o.len + i] = o.in[o.len + i] ^ ks[o.len + i];
  memcpy(out, o.out + o.len, n);
  o.len += n;
}
static void addAad(Op &o, const uint8_t *in, size_t n) {
  if (length_mode && n > CM_CAP - o.aadlen) { sx_check_range(in, n, 0); o.aadlen += n; return; }
  if (o.aadlen + n > CM_CAP) sx_unmodelled("AEAD aad capacity");
  memcpy(o.aad + o.aadlen, in, n);
  o.aadlen += n;
}
// ------------------------------------------------------------------ EVP cipher
struct Cipher { int alg; };
static Cipher c128 = {AES128}, c256 = {AES256}, cpoly = {CHACHA};
struct Ctx {
  int alg, enc, ivlen, taglen;
  bool key_set, iv_set, text_started, tag_set, finished;
  uint8_t key[32], iv[16], tag[16];
  Op *op;
};
static int init(Ctx *c, const Cipher *ci, const uint8_t *key, const uint8_t *iv, int enc) {
  if (fails() || !c) return 0;
  if (ci) { memset(c, 0, sizeof *c); c->alg = ci->alg; c->ivlen = 12; }
  if (!c->alg) return 0;
  if (enc >= 0) c->enc = enc;
  if (key) { memcpy(c->key, key, klen(c->alg)); c->key_set = true; }
  if (iv) {
    memcpy(c->iv, iv, c->ivlen);
    c->iv_set = true; c->text_started = false; c->finished = false; c->op = 0;
  }
  return 1;
}
static Op *cur(Ctx *c) {
  if (!c->op) {
    Op *o = newOp();
    o->enc = c->enc; o->alg = c->alg;
    o->keylen = klen(c->alg); memcpy(o->key, c->key, o->keylen);
    o->ivlen = c->ivlen; memcpy(o->iv, c->iv, c->ivlen);
    c->op = o;
    if (c->ivlen != 12) sx_unmodelled("nonce length");
  }
  return c->op;
}
static int update(Ctx *c, uint8_t *out, int *outl, const uint8_t *in, int inl, int enc) {
  if (outl) *outl = 0;
  if (fails() || !c || !outl) return 0;
  if (!c->alg || !c->key_set || !c->iv_set || c->finished || c->enc != enc || inl < 0) return 0;
  if (inl == 0) return 1;
  Op *o = cur(c);
  if (!out) {
    if (c->text_started) return 0;
    addAad(*o, in, (size_t)inl);
  } else {
    c->text_started = true;
    text(*o, out, in, (size_t)inl);
  }
  *outl = inl;
  return 1;
}
static int fin(Ctx *c, int *outl, int enc) {
  if (outl) *outl = 0;
  if (!c || !c->alg || !c->key_set || !c->iv_set || c->finished || c->enc != enc) { ++calls; return 0; }
  Op *o = cur(c);
  c->finished = true;
  c->iv_set = false;
  if (fails()) { o->done = 2; return 0; }
  if (enc) {
    if (!length_mode) memcpy(c->tag, makeTag(o->alg, o->key, o->iv, o->aad, o->aadlen, o->out, o->len)->tag, 16);
    c->taglen = 16;
    memcpy(o->tag, c->tag, 16);
    o->taglen = 16;
    c->tag_set = true;
    o->done = 1;
    return 1;
  }
  // As in OpenSSL 3.0: the last tag set stays in force; ChaCha20-Poly1305 without
  // any tag compares zero bytes, AES-GCM without a tag fails.
  if (!c->tag_set && c->alg != CHACHA) { o->done = 2; return 0; }
  memcpy(o->tag, c->tag, 16);
  o->taglen = c->tag_set ? c->taglen : 0;
  if (verify(*o)) { o->done = 1; return 1; }
  o->done = 2;
  return 0;
}
static int ctrl(Ctx *c, int t, int arg, void *p) {
  if (fails() || !c || !c->alg) return 0;
  switch (t) {
    case 0x9:  // SET_IVLEN
      if (arg <= 0 || arg > (c->alg == CHACHA ? 12 : 16)) return 0;
      c->ivlen = arg;
      return 1;
    case 0x10:  // GET_TAG
      if (arg <= 0 || arg > 16 || !c->enc || !c->finished) return 0;
      if (cm::length_mode) sx_check_range(p, (size_t)arg, 1); else memcpy(p, c->tag, (size_t)arg);
      return 1;
    case 0x11:  // SET_TAG
      if (arg <= 0 || arg > 16 || c->enc) return 0;
      if (p) { if (cm::length_mode) sx_check_range(p, (size_t)arg, 0); else memcpy(c->tag, p, (size_t)arg); c->tag_set = true; }
      c->taglen = arg;
      return 1;
    default:
      sx_unmodelled("EVP_CIPHER_CTX_ctrl");
      return 0;
  }
}
// ------------------------------------------------------------------ BoringSSL EVP_AEAD
struct Aead { int alg; };
static Aead a128 = {AES128}, a256 = {AES256}, apoly = {CHACHA};
struct AeadCtx { int alg; int taglen; uint8_t key[32]; };
static int aseal(const AeadCtx *c, uint8_t *out, size_t *outl, size_t max, const uint8_t *n, size_t nl, const uint8_t *in, size_t inl, const uint8_t *ad, size_t adl) {
  if (outl) *outl = 0;
  bool f = fails();
  if (f || nl != 12 || inl + 16 < inl || max < inl + (size_t)c->taglen) { if (max) { sx_check_range(out, max, 1); if (!length_mode) memset(out, 0, max); } return 0; }
  Op *o = newOp();
  o->enc = 1; o->alg = c->alg; o->keylen = klen(c->alg); memcpy(o->key, c->key, o->keylen);
  memcpy(o->iv, n, 12); o->ivlen = 12;
  if (adl) addAad(*o, ad, adl);
  if (inl) text(*o, out, in, inl);
  if (length_mode) sx_check_range(out + inl, c->taglen, 1);
  else { memcpy(o->tag, makeTag(o->alg, o->key, o->iv, o->aad, o->aadlen, o->out, o->len)->tag, 16); memcpy(out + inl, o->tag, c->taglen); }
  o->taglen = c->taglen;
  o->done = 1;
  *outl = inl + c->taglen;
  return 1;
}
static int aopen(const AeadCtx *c, uint8_t *out, size_t *outl, size_t max, const uint8_t *n, size_t nl, const uint8_t *in, size_t inl, const uint8_t *ad, size_t adl) {
  if (outl) *outl = 0;
  bool f = fails();
  size_t tl = c->taglen;
  if (f || nl != 12 || inl < tl || max < inl - tl) { if (max) { sx_check_range(out, max, 1); if (!length_mode) memset(out, 0, max); } return 0; }
  Op *o = newOp();
  o->enc = 0; o->alg = c->alg; o->keylen = klen(c->alg); memcpy(o->key, c->key, o->keylen);
  memcpy(o->iv, n, 12); o->ivlen = 12;
  if (adl) addAad(*o, ad, adl);
  uint8_t tmp[CM_CAP];
  size_t tn = inl - tl;
  if (length_mode) { sx_check_range(in, inl, 0); if (tn) sx_check_range(out, tn, 1); o->len = tn; }
  else {
    if (tn) text(*o, tmp, in, tn);
    memcpy(o->tag, in + tn, tl);
  }
  o->taglen = (int)tl;
  if (!verify(*o)) { o->done = 2; if (max) { sx_check_range(out, max, 1); if (!length_mode) memset(out, 0, max); } return 0; }
  if (!length_mode && tn) memcpy(out, tmp, tn);
  o->done = 1;
  *outl = tn;
  return 1;
}
// ------------------------------------------------------------------ HMAC
struct HCtx { int md; bool have_key, ready; uint8_t key[80]; size_t keylen; Mac *m; };
static int md_sha256 = 1, md_sha384 = 2;
static const char errtext[] = "library error";
}  // namespace cm
using namespace cm;
#ifdef SX_BORING
typedef size_t hlen_t;
#else
typedef int hlen_t;
#endif
extern "C" {
const void *EVP_aes_128_gcm(void) { return &c128; }
const void *EVP_aes_256_gcm(void) { return &c256; }
const void *EVP_chacha20_poly1305(void) { return &cpoly; }
void *EVP_CIPHER_CTX_new(void) { void *p = malloc(sizeof(Ctx)); memset(p, 0, sizeof(Ctx)); return p; }
void EVP_CIPHER_CTX_free(void *c) { if (c) { memset(c, 0, sizeof(Ctx)); free(c); } }
int EVP_CIPHER_CTX_reset(void *c) { memset(c, 0, sizeof(Ctx)); return 1; }
int EVP_EncryptInit_ex(void *c, const void *ci, void *, const uint8_t *k, const uint8_t *iv) { return init((Ctx *)c, (const Cipher *)ci, k, iv, 1); }
int EVP_DecryptInit_ex(void *c, const void *ci, void *, const uint8_t *k, const uint8_t *iv) { return init((Ctx *)c, (const Cipher *)ci, k, iv, 0); }
int EVP_CipherInit_ex(void *c, const void *ci, void *, const uint8_t *k, const uint8_t *iv, int enc) { return init((Ctx *)c, (const Cipher *)ci, k, iv, enc); }
int EVP_EncryptUpdate(void *c, uint8_t *o, int *ol, const uint8_t *in, int n) { return update((Ctx *)c, o, ol, in, n, 1); }
int EVP_DecryptUpdate(void *c, uint8_t *o, int *ol, const uint8_t *in, int n) { return update((Ctx *)c, o, ol, in, n, 0); }
int EVP_CipherUpdate(void *c, uint8_t *o, int *ol, const uint8_t *in, int n) { return update((Ctx *)c, o, ol, in, n, ((Ctx *)c)->enc); }
int EVP_EncryptFinal_ex(void *c, uint8_t *, int *ol) { return fin((Ctx *)c, ol, 1); }
int EVP_DecryptFinal_ex(void *c, uint8_t *, int *ol) { return fin((Ctx *)c, ol, 0); }
int EVP_CipherFinal_ex(void *c, uint8_t *, int *ol) { return fin((Ctx *)c, ol, ((Ctx *)c)->enc); }
int EVP_EncryptFinal(void *c, uint8_t *, int *ol) { return fin((Ctx *)c, ol, 1); }
int EVP_DecryptFinal(void *c, uint8_t *, int *ol) { return fin((Ctx *)c, ol, 0); }
int EVP_CIPHER_CTX_ctrl(void *c, int t, int a, void *p) { return ctrl((Ctx *)c, t, a, p); }
int EVP_CIPHER_CTX_set_padding(void *, int) { return 1; }
int EVP_CIPHER_CTX_get_key_length(const void *c) { return klen(((const Ctx *)c)->alg); }
int EVP_CIPHER_CTX_get_iv_length(const void *c) { return ((const Ctx *)c)->ivlen; }
int EVP_CIPHER_get_key_length(const void *c) { return klen(((const Cipher *)c)->alg); }
int EVP_CIPHER_get_iv_length(const void *) { return 12; }
unsigned EVP_CIPHER_key_length(const void *c) { return klen(((const Cipher *)c)->alg); }
unsigned EVP_CIPHER_iv_length(const void *) { return 12; }

const void *EVP_aead_aes_128_gcm(void) { return &a128; }
const void *EVP_aead_aes_256_gcm(void) { return &a256; }
const void *EVP_aead_chacha20_poly1305(void) { return &apoly; }
size_t EVP_AEAD_key_length(const void *a) { return klen(((const Aead *)a)->alg); }
size_t EVP_AEAD_nonce_length(const void *) { return 12; }
size_t EVP_AEAD_max_overhead(const void *) { return 16; }
size_t EVP_AEAD_max_tag_len(const void *) { return 16; }
void *EVP_AEAD_CTX_new(const void *a, const uint8_t *key, size_t kl, size_t tl) {
  if (fails() || kl != (size_t)klen(((const Aead *)a)->alg) || tl > 16) return 0;
  AeadCtx *c = (AeadCtx *)malloc(sizeof *c);
  c->alg = ((const Aead *)a)->alg;
  c->taglen = tl ? (int)tl : 16;
  memset(c->key, 0, 32);
  memcpy(c->key, key, kl);
  return c;
}
void EVP_AEAD_CTX_free(void *c) { if (c) { memset(c, 0, sizeof(AeadCtx)); free(c); } }
int EVP_AEAD_CTX_seal(const void *c, uint8_t *o, size_t *ol, size_t max, const uint8_t *n, size_t nl, const uint8_t *in, size_t inl, const uint8_t *ad, size_t adl) {
  return aseal((const AeadCtx *)c, o, ol, max, n, nl, in, inl, ad, adl);
}
int EVP_AEAD_CTX_open(const void *c, uint8_t *o, size_t *ol, size_t max, const uint8_t *n, size_t nl, const uint8_t *in, size_t inl, const uint8_t *ad, size_t adl) {
  return aopen((const AeadCtx *)c, o, ol, max, n, nl, in, inl, ad, adl);
}

const void *EVP_sha256(void) { return &md_sha256; }
const void *EVP_sha384(void) { return &md_sha384; }
#ifdef SX_BORING
size_t EVP_MD_size(const void *m) { return mdlen(*(const int *)m); }
#else
int EVP_MD_get_size(const void *m) { return mdlen(*(const int *)m); }
#endif
void *HMAC_CTX_new(void) {
  if (fails()) return 0;
  HCtx *h = (HCtx *)malloc(sizeof *h);
  memset(h, 0, sizeof *h);
  live_ctx++;
  return h;
}
void HMAC_CTX_free(void *h) { if (h) { memset(h, 0, sizeof(HCtx)); free(h); live_ctx--; } }
int HMAC_CTX_reset(void *h) { memset(h, 0, sizeof(HCtx)); return 1; }
int HMAC_Init_ex(void *hv, const void *key, hlen_t kl, const void *md, void *) {
  HCtx *h = (HCtx *)hv;
  if (fails()) return 0;
  h->ready = false;
  if (md) { if (!key && md != 0 && h->md && h->md != *(const int *)md) return 0; h->md = *(const int *)md; }
  if (!h->md) return 0;
  if (key) {
    if ((size_t)kl > sizeof h->key) sx_unmodelled("HMAC key longer than modelled");
    memcpy(h->key, key, (size_t)kl); h->keylen = (size_t)kl; h->have_key = true;
  }
  if (!h->have_key) return 0;
  h->m = &newMac();
  h->m->md = h->md; memcpy(h->m->key, h->key, h->keylen); h->m->keylen = h->keylen;
  h->ready = true;
  return 1;
}
int HMAC_Update(void *hv, const uint8_t *d, size_t n) {
  HCtx *h = (HCtx *)hv;
  if (fails() || !h->ready) return 0;
  if (n > CM_MACDATA - h->m->len) sx_unmodelled("HMAC data longer than modelled");
  if (n) memcpy(h->m->data + h->m->len, d, n);
  h->m->len += n;
  return 1;
}
int HMAC_Final(void *hv, uint8_t *out, unsigned *ol) {
  HCtx *h = (HCtx *)hv;
  if (fails() || !h->ready) return 0;
  h->ready = false;
  addDone(*h->m);
  memcpy(out, h->m->out, mdlen(h->md));
  if (ol) *ol = mdlen(h->md);
  return 1;
}
size_t HMAC_size(const void *h) { return mdlen(((const HCtx *)h)->md); }
static uint8_t hmac_static[64];
uint8_t *HMAC(const void *md, const void *key, hlen_t kl, const uint8_t *d, size_t n, uint8_t *out, unsigned *ol) {
  if (fails()) return 0;
  if (!out) out = hmac_static;
  hmac(*(const int *)md, (const uint8_t *)key, (size_t)kl, d, n, out);
  if (ol) *ol = mdlen(*(const int *)md);
  return out;
}
#ifdef SX_BORING
int HKDF_expand(uint8_t *out, size_t ol, const void *md, const uint8_t *prk, size_t pl, const uint8_t *info, size_t il) {
  if (fails() || (ol + mdlen(*(const int *)md) - 1) / mdlen(*(const int *)md) > 255) return 0;
  hkdf(*(const int *)md, prk, pl, info, il, out, ol);
  return 1;
}
#endif
// ------------------------------------------------------------------ BIO / ERR / misc
const void *BIO_s_mem(void) { return &c128; }
void *BIO_new(const void *) { return malloc(8); }
int BIO_free(void *b) { free(b); return 1; }
void BIO_free_all(void *b) { free(b); }
void BIO_vfree(void *b) { free(b); }
long BIO_ctrl(void *, int cmd, long, void *p) { if (cmd == 3) { *(const char **)p = errtext; return sizeof errtext - 1; } return 1; }
long BIO_get_mem_data(void *, char **p) { *p = (char *)errtext; return sizeof errtext - 1; }
int BIO_mem_contents(const void *, const uint8_t **p, size_t *n) { *p = (const uint8_t *)errtext; *n = sizeof errtext - 1; return 1; }
void ERR_print_errors(void *) {}
unsigned ERR_get_error(void) { return 0; }
unsigned ERR_peek_error(void) { return 0; }
unsigned ERR_peek_last_error(void) { return 0; }
void ERR_clear_error(void) {}
void ERR_error_string_n(unsigned, char *b, size_t n) { if (n) b[0] = 0; }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n) != 0; }
}
