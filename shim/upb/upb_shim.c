#include "upb/msg.h"
#include <stdlib.h>

struct blk { struct blk *next; };
struct upb_arena { struct blk *head; };
upb_arena *upb_arena_new(void) {
  upb_arena *a = (upb_arena *)malloc(sizeof *a);
  a->head = NULL;
  return a;
}
void upb_arena_free(upb_arena *a) {
  struct blk *b = a->head;
  while (b) { struct blk *n = b->next; free(b); b = n; }
  free(a);
}
void *upb_arena_malloc(upb_arena *a, size_t size) {
  struct blk *b = (struct blk *)malloc(16 + size);
  if (!b) return NULL;
  b->next = a->head;
  a->head = b;
  return (char *)b + 16;
}
upb_msg *_upb_msg_new(const upb_msglayout *l, upb_arena *a) {
  void *m = upb_arena_malloc(a, l->size);
  if (m) memset(m, 0, l->size);
  return m;
}
#define AT(msg, ofs, type) (*(type *)((char *)(msg) + (ofs)))
/* ---- arrays */
const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size) {
  const upb_array *arr = AT(msg, ofs, upb_array *);
  if (arr) { if (size) *size = arr->len; return arr->data; }
  if (size) *size = 0;
  return NULL;
}
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size) {
  return (void *)_upb_array_accessor(msg, ofs, size);
}
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size, int lg2, upb_arena *a) {
  upb_array *arr = AT(msg, ofs, upb_array *);
  if (!arr) {
    arr = (upb_array *)upb_arena_malloc(a, sizeof *arr);
    if (!arr) return NULL;
    arr->data = NULL; arr->len = 0; arr->cap = 0;
    AT(msg, ofs, upb_array *) = arr;
  }
  if (size > arr->cap || !arr->cap) {   /* as upb: room for 4 at first */
    size_t nc = arr->cap ? arr->cap : 4;
    while (nc < size) nc *= 2;
    void *d = upb_arena_malloc(a, nc << lg2);
    if (!d) return NULL;
    if (arr->len) memcpy(d, arr->data, arr->len << lg2);
    arr->data = d;
    arr->cap = nc;
  }
  arr->len = size;
  return arr->data;
}
bool _upb_array_append_accessor2(void *msg, size_t ofs, int lg2, const void *value, upb_arena *a) {
  upb_array *arr = AT(msg, ofs, upb_array *);
  size_t i = arr ? arr->len : 0;
  void *d = _upb_array_resize_accessor2(msg, ofs, i + 1, lg2, a);
  if (!d) return false;
  memcpy((char *)d + (i << lg2), value, (size_t)1 << lg2);
  return true;
}
/* ---- string->string maps */
struct ment { upb_strview key, val; };
typedef struct { struct ment *e; size_t len, cap; } upb_map;
size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs) { upb_map *m = AT(msg, ofs, upb_map *); return m ? m->len : 0; }
static struct ment *mfind(upb_map *m, const upb_strview *k) {
  for (size_t i = 0; m && i < m->len; i++) if (upb_strview_eql(m->e[i].key, *k)) return &m->e[i];
  return NULL;
}
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key, size_t ks, void *val, size_t vs) {
  (void)ks; (void)vs;
  struct ment *e = mfind(AT(msg, ofs, upb_map *), (const upb_strview *)key);
  if (!e) return false;
  *(upb_strview *)val = e->val;
  return true;
}
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter) {
  upb_map *m = AT(msg, ofs, upb_map *);
  if (!m || *iter >= m->len) return NULL;
  return &m->e[(*iter)++];
}
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key, size_t ks, void *val, size_t vs, upb_arena *a) {
  (void)ks; (void)vs;
  upb_map *m = AT(msg, ofs, upb_map *);
  if (!m) {
    m = (upb_map *)upb_arena_malloc(a, sizeof *m);
    if (!m) return false;
    m->e = NULL; m->len = m->cap = 0;
    AT(msg, ofs, upb_map *) = m;
  }
  struct ment *e = mfind(m, (const upb_strview *)key);
  if (!e) {
    if (m->len == m->cap) {
      size_t nc = m->cap ? m->cap * 2 : 4;
      struct ment *ne = (struct ment *)upb_arena_malloc(a, nc * sizeof *ne);
      if (!ne) return false;
      if (m->len) memcpy(ne, m->e, m->len * sizeof *ne);
      m->e = ne; m->cap = nc;
    }
    e = &m->e[m->len++];
    e->key = *(const upb_strview *)key;
  }
  e->val = *(upb_strview *)val;
  return true;
}
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key, size_t ks) {
  (void)ks;
  upb_map *m = AT(msg, ofs, upb_map *);
  struct ment *e = mfind(m, (const upb_strview *)key);
  if (!e) return false;
  *e = m->e[--m->len];
  return true;
}
void _upb_msg_map_clear(upb_msg *msg, size_t ofs) { upb_map *m = AT(msg, ofs, upb_map *); if (m) m->len = 0; }
void _upb_msg_map_key(const void *msg, void *key, size_t size) { (void)size; *(upb_strview *)key = ((const struct ment *)msg)->key; }
void _upb_msg_map_value(const void *msg, void *val, size_t size) { (void)size; *(upb_strview *)val = ((const struct ment *)msg)->val; }
void _upb_msg_map_set_value(void *msg, const void *val, size_t size) { (void)size; ((struct ment *)msg)->val = *(const upb_strview *)val; }

/* ---- wire format helpers */
enum { T_DOUBLE = 1, T_FLOAT, T_INT64, T_UINT64, T_INT32, T_FIXED64, T_FIXED32, T_BOOL, T_STRING, T_GROUP, T_MESSAGE, T_BYTES, T_UINT32, T_ENUM, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64 };
static int elem_lg2(int t) {
  switch (t) {
    case T_BOOL: return 0;
    case T_FLOAT: case T_INT32: case T_FIXED32: case T_UINT32: case T_ENUM: case T_SFIXED32: case T_SINT32: return 2;
    case T_STRING: case T_BYTES: return 4;
    default: return 3;
  }
}
static int wire_of(int t) {
  switch (t) {
    case T_DOUBLE: case T_FIXED64: case T_SFIXED64: return 1;
    case T_FLOAT: case T_FIXED32: case T_SFIXED32: return 5;
    case T_STRING: case T_MESSAGE: case T_BYTES: return 2;
    default: return 0;
  }
}
/* ---- encoder: two passes (size, write) */
typedef struct { char *p; size_t n; } out;
static void put(out *o, const void *d, size_t n) { if (o->p && n) memcpy(o->p + o->n, d, n); o->n += n; }
static void put_varint(out *o, uint64_t v) {
  char b[10]; size_t n = 0;
  do { b[n++] = (char)((v & 0x7f) | (v >= 0x80 ? 0x80 : 0)); v >>= 7; } while (v);
  put(o, b, n);
}
static void put_tag(out *o, uint32_t num, int wt) { put_varint(o, ((uint64_t)num << 3) | wt); }
static void enc_msg(out *o, const void *msg, const upb_msglayout *l);
static void put_scalar(out *o, const void *mem, int t) {
  switch (t) {
    case T_INT64: case T_UINT64: put_varint(o, *(const uint64_t *)mem); break;
    case T_UINT32: put_varint(o, *(const uint32_t *)mem); break;
    case T_INT32: case T_ENUM: put_varint(o, (uint64_t)(int64_t) * (const int32_t *)mem); break;
    case T_BOOL: put_varint(o, *(const unsigned char *)mem ? 1 : 0); break;
    case T_SINT32: { int32_t v = *(const int32_t *)mem; put_varint(o, ((uint32_t)v << 1) ^ (uint32_t)(v >> 31)); break; }
    case T_SINT64: { int64_t v = *(const int64_t *)mem; put_varint(o, ((uint64_t)v << 1) ^ (uint64_t)(v >> 63)); break; }
    case T_DOUBLE: case T_FIXED64: case T_SFIXED64: put(o, mem, 8); break;
    case T_FLOAT: case T_FIXED32: case T_SFIXED32: put(o, mem, 4); break;
    default: abort();
  }
}
static void put_field(out *o, const upb_msglayout *l, const upb_msglayout_field *f, const void *mem) {
  int t = f->descriptortype;
  if (t == T_STRING || t == T_BYTES) {
    const upb_strview *s = (const upb_strview *)mem;
    put_tag(o, f->number, 2);
    put_varint(o, s->size);
    put(o, s->data, s->size);
  } else if (t == T_MESSAGE) {
    const void *sub = *(const void *const *)mem;
    if (!sub) return;
    out sz = {NULL, 0};
    enc_msg(&sz, sub, l->submsgs[f->submsg_index]);
    put_tag(o, f->number, 2);
    put_varint(o, sz.n);
    if (o->p) enc_msg(o, sub, l->submsgs[f->submsg_index]); else o->n += sz.n;
  } else {
    put_tag(o, f->number, wire_of(t));
    put_scalar(o, mem, t);
  }
}
static bool is_zero(const void *mem, int t) {
  if (t == T_STRING || t == T_BYTES) return ((const upb_strview *)mem)->size == 0;
  switch (elem_lg2(t)) {
    case 0: return *(const uint8_t *)mem == 0;
    case 2: return *(const uint32_t *)mem == 0;
    default: return *(const uint64_t *)mem == 0;
  }
}
static void enc_msg(out *o, const void *msg, const upb_msglayout *l) {
  for (int i = 0; i < l->field_count; i++) {
    const upb_msglayout_field *f = &l->fields[i];
    const char *mem = (const char *)msg + f->offset;
    int t = f->descriptortype;
    if (f->label == _UPB_LABEL_MAP) {
      const upb_map *m = *(upb_map *const *)mem;
      for (size_t j = 0; m && j < m->len; j++) {
        out sz = {NULL, 0};
        for (int pass = 0; pass < 2; pass++) {
          out *q = pass ? o : &sz;
          if (pass) { put_tag(o, f->number, 2); put_varint(o, sz.n); }
          put_tag(q, 1, 2); put_varint(q, m->e[j].key.size); put(q, m->e[j].key.data, m->e[j].key.size);
          put_tag(q, 2, 2); put_varint(q, m->e[j].val.size); put(q, m->e[j].val.data, m->e[j].val.size);
        }
      }
    } else if (f->label == 3 || f->label == _UPB_LABEL_PACKED) {
      const upb_array *a = *(upb_array *const *)mem;
      if (!a || !a->len) continue;
      int lg = elem_lg2(t);
      if (f->label == _UPB_LABEL_PACKED) {
        out sz = {NULL, 0};
        for (size_t j = 0; j < a->len; j++) put_scalar(&sz, (const char *)a->data + (j << lg), t);
        put_tag(o, f->number, 2);
        put_varint(o, sz.n);
        for (size_t j = 0; j < a->len; j++) put_scalar(o, (const char *)a->data + (j << lg), t);
      } else {
        for (size_t j = 0; j < a->len; j++) put_field(o, l, f, (const char *)a->data + (j << lg));
      }
    } else if (f->presence == 0) {
      if (!is_zero(mem, t)) put_field(o, l, f, mem);
    } else if (f->presence > 0) {
      if (_upb_hasbit(msg, f->presence)) put_field(o, l, f, mem);
    } else {
      if (_upb_getoneofcase(msg, ~(ptrdiff_t)f->presence) == f->number) put_field(o, l, f, mem);
    }
  }
}
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *a, size_t *size) {
  out sz = {NULL, 0};
  enc_msg(&sz, msg, l);
  *size = sz.n;
  if (sz.n == 0) { static char ch; return &ch; }
  out o = {(char *)upb_arena_malloc(a, sz.n), 0};
  if (!o.p) { *size = 0; return NULL; }
  enc_msg(&o, msg, l);
  return o.p;
}
/* ---- decoder */
typedef struct { const unsigned char *p, *end; upb_arena *a; int options; } in;
static bool get_varint(in *d, uint64_t *v) {
  uint64_t r = 0;
  for (int s = 0; s < 70; s += 7) {
    if (d->p == d->end) return false;
    unsigned char b = *d->p++;
    if (s == 63 && b > 1) return false;
    r |= (uint64_t)(b & 0x7f) << s;
    if (!(b & 0x80)) { *v = r; return true; }
  }
  return false;
}
static bool utf8_ok(const unsigned char *p, size_t n) {
  size_t i = 0;
  while (i < n) {
    unsigned char c = p[i];
    if (c < 0x80) { i++; continue; }
    if (c >= 0xc2 && c <= 0xdf) { if (n - i < 2 || (p[i + 1] & 0xc0) != 0x80) return false; i += 2; continue; }
    if (c >= 0xe0 && c <= 0xef) {
      if (n - i < 3 || (p[i + 1] & 0xc0) != 0x80 || (p[i + 2] & 0xc0) != 0x80) return false;
      if (c == 0xe0 && p[i + 1] < 0xa0) return false;
      if (c == 0xed && p[i + 1] > 0x9f) return false;
      i += 3; continue;
    }
    if (c >= 0xf0 && c <= 0xf4) {
      if (n - i < 4 || (p[i + 1] & 0xc0) != 0x80 || (p[i + 2] & 0xc0) != 0x80 || (p[i + 3] & 0xc0) != 0x80) return false;
      if (c == 0xf0 && p[i + 1] < 0x90) return false;
      if (c == 0xf4 && p[i + 1] > 0x8f) return false;
      i += 4; continue;
    }
    return false;
  }
  return true;
}
static bool get_str(in *d, upb_strview *s, bool utf8) {
  uint64_t n;
  if (!get_varint(d, &n) || n > (uint64_t)(d->end - d->p)) return false;
  if (utf8 && !utf8_ok(d->p, n)) return false;
  if (d->options & UPB_DECODE_ALIAS) {
    *s = upb_strview_make((const char *)d->p, n);
  } else {
    char *c = (char *)upb_arena_malloc(d->a, n);
    if (!c) return false;
    if (n) memcpy(c, d->p, n);
    *s = upb_strview_make(c, n);
  }
  d->p += n;
  return true;
}
static bool get_scalar(in *d, void *mem, int t) {
  uint64_t v;
  switch (wire_of(t)) {
    case 1: if (d->end - d->p < 8) return false; memcpy(mem, d->p, 8); d->p += 8; return true;
    case 5: if (d->end - d->p < 4) return false; memcpy(mem, d->p, 4); d->p += 4; return true;
    default: break;
  }
  if (!get_varint(d, &v)) return false;
  switch (t) {
    case T_BOOL: *(unsigned char *)mem = v != 0; break;
    case T_SINT32: { uint32_t u = (uint32_t)v; *(uint32_t *)mem = (u >> 1) ^ -(u & 1); break; }
    case T_SINT64: *(uint64_t *)mem = (v >> 1) ^ -(v & 1); break;
    case T_INT64: case T_UINT64: *(uint64_t *)mem = v; break;
    default: *(uint32_t *)mem = (uint32_t)v; break;
  }
  return true;
}
static bool skip(in *d, uint32_t num, int wt, int depth) {
  uint64_t v;
  switch (wt) {
    case 0: return get_varint(d, &v);
    case 1: if (d->end - d->p < 8) return false; d->p += 8; return true;
    case 5: if (d->end - d->p < 4) return false; d->p += 4; return true;
    case 2: if (!get_varint(d, &v) || v > (uint64_t)(d->end - d->p)) return false; d->p += v; return true;
    case 3:
      if (depth <= 0) return false;
      for (;;) {
        if (!get_varint(d, &v) || v > UINT32_MAX || (v >> 3) == 0) return false;
        if ((v & 7) == 4) return (v >> 3) == num;
        if (!skip(d, (uint32_t)(v >> 3), (int)(v & 7), depth - 1)) return false;
      }
    default: return false;
  }
}
static bool dec_msg(in *d, void *msg, const upb_msglayout *l, int depth);
static bool sub_range(in *d, in *s) {
  uint64_t n;
  if (!get_varint(d, &n) || n > (uint64_t)(d->end - d->p)) return false;
  *s = *d;
  s->end = d->p + n;
  d->p += n;
  return true;
}
static bool dec_msg(in *d, void *msg, const upb_msglayout *l, int depth) {
  if (depth <= 0) return false;
  while (d->p != d->end) {
    uint64_t tag;
    if (!get_varint(d, &tag) || tag > UINT32_MAX) return false;
    uint32_t num = (uint32_t)(tag >> 3);
    int wt = (int)(tag & 7);
    if (num == 0) return false;
    const upb_msglayout_field *f = NULL;
    for (int i = 0; i < l->field_count; i++) if (l->fields[i].number == num) { f = &l->fields[i]; break; }
    bool rep = f && (f->label == 3 || f->label == _UPB_LABEL_PACKED);
    if (!f || !(wt == wire_of(f->descriptortype) || (rep && wt == 2))) {
      if (!skip(d, num, wt, depth)) return false;
      continue;
    }
    int t = f->descriptortype;
    char *mem = (char *)msg + f->offset;
    if (f->label == _UPB_LABEL_MAP) {
      in s;
      if (!sub_range(d, &s)) return false;
      upb_strview k = {"", 0}, v = {"", 0};
      while (s.p != s.end) {
        uint64_t et;
        if (!get_varint(&s, &et) || et > UINT32_MAX || (et >> 3) == 0) return false;
        if (et == 10) { if (!get_str(&s, &k, true)) return false; }
        else if (et == 18) { if (!get_str(&s, &v, true)) return false; }
        else if (!skip(&s, (uint32_t)(et >> 3), (int)(et & 7), depth)) return false;
      }
      if (!_upb_msg_map_set(msg, f->offset, &k, 0, &v, 0, d->a)) return false;
      continue;
    }
    if (rep) {
      if (t == T_STRING || t == T_BYTES) {
        upb_strview s;
        if (!get_str(d, &s, t == T_STRING)) return false;
        if (!_upb_array_append_accessor2(msg, f->offset, 4, &s, d->a)) return false;
      } else if (t == T_MESSAGE) {
        in s;
        const upb_msglayout *sl = l->submsgs[f->submsg_index];
        if (!sub_range(d, &s)) return false;
        void *sub = _upb_msg_new(sl, d->a);
        if (!sub || !_upb_array_append_accessor2(msg, f->offset, 3, &sub, d->a)) return false;
        if (!dec_msg(&s, sub, sl, depth - 1)) return false;
      } else if (wt == 2) {
        in s;
        if (!sub_range(d, &s)) return false;
        while (s.p != s.end) {
          uint64_t v = 0;
          if (!get_scalar(&s, &v, t)) return false;
          if (!_upb_array_append_accessor2(msg, f->offset, elem_lg2(t), &v, d->a)) return false;
        }
      } else {
        uint64_t v = 0;
        if (!get_scalar(d, &v, t)) return false;
        if (!_upb_array_append_accessor2(msg, f->offset, elem_lg2(t), &v, d->a)) return false;
      }
      continue;
    }
    if (t == T_MESSAGE) {
      in s;
      const upb_msglayout *sl = l->submsgs[f->submsg_index];
      if (!sub_range(d, &s)) return false;
      bool have = f->presence < 0 ? _upb_getoneofcase(msg, ~(ptrdiff_t)f->presence) == num : true;
      void *sub = have ? *(void **)mem : NULL;
      if (!sub) sub = _upb_msg_new(sl, d->a);
      if (!sub) return false;
      *(void **)mem = sub;
      if (f->presence > 0) _upb_sethas(msg, f->presence);
      else if (f->presence < 0) *(uint32_t *)((char *)msg + ~(ptrdiff_t)f->presence) = num;
      if (!dec_msg(&s, sub, sl, depth - 1)) return false;
      continue;
    }
    if (t == T_STRING || t == T_BYTES) {
      upb_strview s;
      if (!get_str(d, &s, t == T_STRING)) return false;
      *(upb_strview *)mem = s;
    } else {
      if (!get_scalar(d, mem, t)) return false;
    }
    if (f->presence > 0) _upb_sethas(msg, f->presence);
    else if (f->presence < 0) *(uint32_t *)((char *)msg + ~(ptrdiff_t)f->presence) = num;
  }
  return true;
}
bool _upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l, upb_arena *a, int options) {
  in d = {(const unsigned char *)buf, (const unsigned char *)buf + size, a, options};
  if (size == 0) return true;
  return dec_msg(&d, msg, l, 64);
}
