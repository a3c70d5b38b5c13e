// C19: two threads on one connection.
#include "fp.h"
#include "src/record_protocol/s2a_half_connection.h"
#if MODE == 4
#include "hs.h"
#endif
#ifndef OPS
#define OPS 2
#endif
typedef std::vector<uint8_t> Bytes;
// ---- what one thread is asked to do and what it saw
struct Job {
  int n = 0;
  int op[4] = {};
  Bytes in[4], out[4];
  int code[4] = {};
  size_t len[4] = {};
  S2ACrypter *c = nullptr;
  S2AFrameProtector *f = nullptr;
  s2a::record_protocol::S2AHalfConnection *h = nullptr;
#if MODE == 4
  S2AProxy *p = nullptr;
#endif
};
static const uint8_t ku[] = {24, 0, 0, 1, 0};
static const uint8_t tk[] = {4, 0, 0, 1, 9};
static void at_once(void (*a)(void *), void *x, void (*b)(void *), void *y) {
  int i = sx_thread_spawn(a, x), j = sx_thread_spawn(b, y);
  sx_thread_join(i);
  sx_thread_join(j);
}
static void writer(void *v) {   // S2ACrypter, outbound
  Job *j = (Job *)v;
  for (int i = 0; i < j->n; i++) {
    if (j->op[i] == 1) { j->code[i] = j->c->UpdateOutboundKey().ok(); continue; }
    Bytes out(j->in[i].size() + j->c->RecordOverhead());
    j->len[i] = out.size();
    auto st = j->c->Protect(RecordType::APPLICATION_DATA, {{j->in[i].data(), j->in[i].size()}}, {out.data(), out.size()});
    j->code[i] = st.GetCode() == Code::OK;
    out.resize(st.GetBytesWritten());
    j->out[i] = out;
  }
}
static void reader(void *v) {   // S2ACrypter, inbound
  Job *j = (Job *)v;
  for (int i = 0; i < j->n; i++) {
    Bytes &r = j->in[i];
    Bytes out(r.size() - 5);
    auto st = j->c->Unprotect({r.data(), 5}, {{r.data() + 5, r.size() - 5}}, {out.data(), out.size()});
    j->code[i] = st.GetCode() == Code::OK;
    out.resize(st.GetBytesWritten());
    j->out[i] = out;
  }
}
static void fwriter(void *v) {
  Job *j = (Job *)v;
  for (int i = 0; i < j->n; i++) {
    if (j->op[i] == 2) {   // the overload that fills a buffer
      Iovec b = fp_alloc(j->in[i].size() + 22);
      bool ok = j->f->Protect({{j->in[i].data(), j->in[i].size()}}, b).ok();
      j->code[i] = ok;
      if (ok) j->out[i].assign((uint8_t *)b.iov_base, (uint8_t *)b.iov_base + j->in[i].size() + 22);
      fp_destroy(b);
      continue;
    }
    FResult r = j->f->Protect({{j->in[i].data(), j->in[i].size()}});
    j->code[i] = r.status.ok();
    for (auto &b : r.bytes) { j->out[i].insert(j->out[i].end(), (uint8_t *)b.iov_base, (uint8_t *)b.iov_base + b.iov_len); fp_destroy(b); }
  }
}
static void freader(void *v) {
  Job *j = (Job *)v;
  for (int i = 0; i < j->n; i++) {
    FResult r = j->f->Unprotect({{j->in[i].data(), j->in[i].size()}});
    j->code[i] = r.status.ok();
    for (auto &b : r.bytes) { j->out[i].insert(j->out[i].end(), (uint8_t *)b.iov_base, (uint8_t *)b.iov_base + b.iov_len); fp_destroy(b); }
  }
}
static void half(void *v) {
  Job *j = (Job *)v;
  for (int i = 0; i < j->n; i++) {
    Bytes &d = j->in[i];
    if (j->op[i] == 1) j->code[i] = j->h->UpdateKey().ok();
    else if (j->op[i] == 2) j->len[i] = j->h->TagLength();
    else {
      Bytes out(d.size() + 16);
      auto st = j->h->Encrypt({}, {{d.data(), d.size()}}, {out.data(), out.size()});
      j->code[i] = st.GetStatus().ok();
      j->len[i] = st.GetBytesWritten();
      j->out[i] = out;
    }
  }
}
// the operations in the order they reached the cipher: consecutive numbers per key, keys in order
static void serial(Dir d, int updates) {
  int left = updates;
  for (int i = 0; i < cm::nops; i++) {
    if (!cm::ops[i].enc) continue;
    uint8_t no[12];
    d.nonce(no);
    while (left && !(same(cm::ops[i].key, d.key, d.s.key) && same(cm::ops[i].iv, no, 12))) { d.update(); d.nonce(no); left--; }
    CHECK(cm::ops[i].done == 1 && same(cm::ops[i].key, d.key, d.s.key) && same(cm::ops[i].iv, no, 12), "calls of several threads use the numbers of some serial order");
    d.seq++;
  }
  CHECK(left == 0, "every key update took effect once");
}
// records the peer sends, and what the reader has to see
static void inbound(Dir &peer, Job &j, Bytes *want) {
  for (int i = 0; i < j.n; i++) {
    int k = pick("rec", 0, 2);
    Bytes c;
    if (k == 0) c = symvec("din", 1);
    else if (k == 1) c.assign(ku, ku + 5);
    else c.assign(tk, tk + 5);
    j.in[i] = peer.msg(k ? 22 : 23, c);
    if (k == 0) want[i] = c;
    if (k == 1) { peer.update(); REACH("opt:inbound key update"); }
  }
}
static void outbound(Job &j, int ops) {
  for (int i = 0; i < j.n; i++) {
    j.op[i] = pick("op", 0, ops - 1);
    j.in[i] = symvec("dout", 1);
  }
}
extern "C" void sx_main() {
  int64_t live0 = sx_live_allocs();
  sent = Sent();
  {
  Suite s = suite(SUITE);
  uint64_t qi = sym64("qi"), qo = sym64("qo");
  sx_assume((qi < ~0ull - 8) & (qo < ~0ull - 8));
  Dir in(s, 0x40, qi), out(s, 0x90, qo), peer = in;
  Job a, b;
#if MODE == 0   // S2ACrypter: one thread per direction
  Crypter c = connect(in, out);
  Bytes want[4];
  a.n = b.n = OPS;
  a.c = b.c = c.get();
  outbound(a, 2);
  inbound(peer, b, want);
  at_once(writer, &a, reader, &b);
  for (int i = 0; i < a.n; i++) {
    CHECK(a.code[i], "protecting works as if alone");
    if (a.op[i] == 1) { out.update(); REACH("outbound key update"); continue; }
    CHECK(a.len[i] == 23, "the overhead is that of one record");
    CHECK(vsame(a.out[i], out.msg(23, a.in[i])), "records are sealed as if the thread ran alone");
  }
  for (int i = 0; i < b.n; i++) CHECK(b.code[i] && vsame(b.out[i], want[i]), "records are opened as if the thread ran alone");
  REACH("done");
#elif MODE == 1   // S2AHalfConnection: both threads on one direction
  auto r = s2a::record_protocol::S2AHalfConnection::Create(s.cs, out.seq, out.vec());
  CHECK(r.index() == 1, "a half connection is created");
  auto h = std::move(absl::get<1>(r));
  a.n = b.n = OPS;
  a.h = b.h = h.get();
  outbound(a, 3);
  outbound(b, 3);
  at_once(half, &a, half, &b);
  int updates = 0, seals = 0;
  for (Job *j : {&a, &b})
    for (int i = 0; i < j->n; i++) {
      if (j->op[i] == 2) { CHECK(j->len[i] == 16, "the tag has 16 bytes"); continue; }
      CHECK(j->code[i], "every call succeeds");
      if (j->op[i] == 1) updates++;
      else { seals++; CHECK(j->len[i] == j->in[i].size() + 16, "ciphertext and tag"); }
    }
  Job z;
  z.n = 1;
  z.h = h.get();
  z.in[0] = {1};
  half(&z);
  CHECK(z.code[0] && cm::nops == seals + 1, "every call sealed once");
  serial(out, updates);
  // each caller got its own ciphertext
  for (Job *j : {&a, &b})
    for (int i = 0; i < j->n; i++)
      if (j->op[i] == 0) {
        int hits = 0;
        for (int k = 0; k < cm::nops; k++) hits += cm::ops[k].len == j->in[i].size() && same(cm::ops[k].in, j->in[i].data(), j->in[i].size()) && same(cm::ops[k].out, j->out[i].data(), j->in[i].size()) && same(cm::ops[k].tag, j->out[i].data() + j->in[i].size(), 16);
        CHECK(hits >= 1, "each caller gets the sealing of its own plaintext");
      }
  REACH("done");
#elif MODE == 2   // frame protector: both threads protect, or both unprotect
  Fp f = protector(in, out);
  a.f = b.f = f.get();
  if (flag("read")) {
    a.n = b.n = 1;
    Bytes d[2] = {symvec("d0", 1), symvec("d1", 1)};
    a.in[0] = peer.msg(23, d[0]);
    b.in[0] = peer.msg(23, d[1]);
    at_once(freader, &a, freader, &b);
    CHECK(a.code[0] == b.code[0], "the records are opened in some serial order");
    if (a.code[0]) CHECK(vsame(a.out[0], d[0]) && vsame(b.out[0], d[1]), "each caller gets its own plaintext");
    REACH("read");
  } else {
    a.n = OPS;
    b.n = 1;
    for (int i = 0; i < a.n; i++) { a.in[i] = symvec("dout", 1); a.op[i] = flag("buf") ? 2 : 0; }
    b.in[0] = symvec("dout", 2);
    b.op[0] = flag("buf") ? 2 : 0;
    at_once(fwriter, &a, fwriter, &b);
    CHECK(cm::nops == a.n + 1, "every call sealed one record");
    serial(out, 0);
    // each caller's record opens to its own plaintext at the number it was given
    int ia = 0;
    for (int k = 0; k <= a.n; k++) {
      Bytes ra = ia < a.n ? a.out[ia] : Bytes(), want_a = ia < a.n ? Dir(out).msg(23, a.in[ia]) : Bytes(), want_b = Dir(out).msg(23, b.in[0]);
      if (ia < a.n && vsame(ra, want_a)) ia++;
      else CHECK(vsame(b.out[0], want_b), "records are sealed in some serial order, each for its caller");
      out.seq++;
    }
    CHECK(ia == a.n, "a thread's records are in its own order");
    REACH("write");
  }
  fp_end();
#elif MODE == 3   // frame protector: one thread per direction
  Fp f = protector(in, out);
  a.f = b.f = f.get();
  a.n = b.n = OPS;
  Bytes want[4];
  for (int i = 0; i < a.n; i++) a.in[i] = symvec("dout", 1);
  inbound(peer, b, want);
  at_once(fwriter, &a, freader, &b);
  for (int i = 0; i < a.n; i++) CHECK(a.code[i] && vsame(a.out[i], out.msg(23, a.in[i])), "records are sealed as if the thread ran alone");
  for (int i = 0; i < b.n; i++) CHECK(b.code[i] && vsame(b.out[i], want[i]), "records are opened as if the thread ran alone");
  settle({});
  REACH("done");
  f.reset();
  fp_end();
#endif
  }
  sent = Sent();
  CHECK(sx_live_allocs() == live0, "no memory is leaked");
}
