// Frame protector helpers: allocator accounting and an independent peer.
#pragma once
#include "rec.h"
#include "include/s2a_frame_protector.h"
using s2a::frame_protector::S2AFrameProtector;
typedef S2AFrameProtector::Result FResult;
struct Alloc { void *p; size_t n; int freed; };
SX_MODEL static Alloc allocs[32];
SX_MODEL static int nallocs;
inline Iovec fp_alloc(size_t n) {
#ifdef FP_RECORD
  // by length only: a fixed object whose bytes end every plaintext with the application data type
  void *p = cm::length_mode ? malloc(17600) : malloc((n = sx_concretize(n)) ? n : 1);
  if (cm::length_mode) memset(p, 0x17, 17600);
#else
  if (!cm::length_mode) n = sx_concretize(n);
  void *p = malloc(n ? n : 1);
#endif
  if (!cm::length_mode && n && n < 200) memset(p, 0xEE, n);
  CHECK(nallocs < 32, "harness: allocator log");
  allocs[nallocs++] = {p, n, 0};
  return {p, n};
}
inline void fp_destroy(Iovec v) {
  for (int i = 0; i < nallocs; i++)
    if (allocs[i].p == v.iov_base) {
      CHECK(!allocs[i].freed, "a buffer is destroyed at most once");
      allocs[i].freed = 1;
      return;   // kept until the end: late uses are caught by the accounting, not by reuse
    }
  sx_fail("only buffers obtained from the allocator are destroyed");
}
inline void fp_log(const std::string &) {}
// every buffer not handed to the caller was destroyed; then free everything
inline void settle(const std::vector<Iovec> &kept) {
  size_t live = 0;
  for (int i = 0; i < nallocs; i++) live += !allocs[i].freed;
  CHECK(live == kept.size(), "every allocated buffer is either returned or destroyed");
  for (auto &v : kept) {
    bool found = false;
    for (int i = 0; i < nallocs; i++) if (allocs[i].p == v.iov_base && !allocs[i].freed) { found = true; CHECK(v.iov_len <= allocs[i].n, "no more bytes than allocated"); allocs[i].freed = 1; break; }
    CHECK(found, "a returned buffer came from the allocator and was not destroyed");
  }
}
inline void fp_end() { for (int i = 0; i < nallocs; i++) free(allocs[i].p); nallocs = 0; }
typedef std::unique_ptr<S2AFrameProtector> Fp;
inline Fp protector(const Dir &in, const Dir &out) {
  nallocs = 0;
  std::string url = "url";
  Identity id = Identity::FromUid("u");
  S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, in.s.cs, in.vec(), out.vec(), in.seq, out.seq, url, id, 7, nullptr, nullptr, fp_alloc, fp_destroy, fp_log};
  auto r = S2AFrameProtector::Create(o);
  CHECK(r.ok(), "a frame protector with valid options is created");
  return std::move(*r);
}
