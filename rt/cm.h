// Model of the crypto library (OpenSSL EVP/HMAC and BoringSSL EVP_AEAD) used by
// the harnesses, both symbolically and in native replay.
//
// AEAD: ciphertext = plaintext XOR keystream(alg, key, iv), tag = T(alg, key, iv,
// aad, ciphertext) where keystream and T are uninterpreted functions (functionally
// consistent).  An unknown tag never verifies (no forgery) unless the harness asks
// for an adversarial verdict.  HMAC is an uninterpreted, collision-free function.
// Every operation is logged so that harnesses state what reached the cipher.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifndef CM_CAP
#define CM_CAP 96         /* bytes of text kept per operation */
#endif
#ifndef CM_OPS
#define CM_OPS 24
#endif
#ifndef CM_MACDATA
#define CM_MACDATA 128
#endif
#ifndef CM_MACS
#define CM_MACS 64
#endif
namespace cm {
enum { AES128 = 1, AES256 = 2, CHACHA = 3 };
struct Op {
  int enc, alg;
  uint8_t key[32]; int keylen;
  uint8_t iv[16]; int ivlen;
  uint8_t aad[CM_CAP]; size_t aadlen;
  uint8_t in[CM_CAP]; uint8_t out[CM_CAP]; size_t len;   // text in and out
  uint8_t tag[16]; int taglen;                           // produced / presented
  int done;                                              // 0 open, 1 success, 2 failed
};
struct Mac { int md; uint8_t key[80]; size_t keylen; uint8_t data[CM_MACDATA]; size_t len; uint8_t out[64]; int done; };
extern Op ops[CM_OPS]; extern int nops;
extern Mac macs[CM_MACS]; extern int nmacs;
// configuration (set before use)
extern bool symbolic_ks;     // keystream and tag bytes symbolic (else fixed pseudo-random)
extern bool symbolic_mac;    // HMAC outputs symbolic
extern int verdict;          // 0 genuine tags only, 1 arbitrary (symbolic) verdict per open
extern bool length_mode;     // only lengths and bounds matter, contents are not modelled
extern int fail_at;          // library call number that fails (0 none), counted in calls
extern int calls;
extern int live_ctx;
void reset();
int mdlen(int md);
// the functions themselves, for oracles
void hmac(int md, const uint8_t *key, size_t keylen, const uint8_t *data, size_t len, uint8_t *out);
void hkdf(int md, const uint8_t *prk, size_t prklen, const uint8_t *info, size_t infolen, uint8_t *out, size_t outlen);
void expand_label(int md, const uint8_t *secret, size_t n, const char *label, uint8_t *out, size_t outlen);
void seal(int alg, const uint8_t *key, const uint8_t iv[12], const uint8_t *aad, size_t aadlen, const uint8_t *pt, size_t n, uint8_t *ct_and_tag);
}  // namespace cm
