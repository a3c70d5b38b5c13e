/* Stand-in for the upb runtime (not installed here): the subset of the API the
 * generated code in src/proto/upb-generated uses, with the proto3 semantics of
 * the real one.  Every arena allocation is its own heap block, so that an
 * out-of-bounds or stale access is visible to the checker and to ASan. */
#ifndef UPB_SHIM_MSG_H_
#define UPB_SHIM_MSG_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifndef UPB_INLINE
#ifdef __cplusplus
#define UPB_INLINE inline
#else
#define UPB_INLINE static inline
#endif
#define UPB_INLINE_DEFINED_BY_MSG
#endif
typedef struct { const char *data; size_t size; } upb_strview;
static inline upb_strview upb_strview_make(const char *data, size_t size) {
  upb_strview r; r.data = data; r.size = size; return r;
}
static inline upb_strview upb_strview_makez(const char *data) {
  return upb_strview_make(data, strlen(data));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}
#define UPB_STRVIEW_INIT(ptr, len) {ptr, len}
#define UPB_STRVIEW_FORMAT "%.*s"
#define UPB_STRVIEW_ARGS(view) (int)(view).size, (view).data
typedef struct upb_arena upb_arena;
upb_arena *upb_arena_new(void);
void upb_arena_free(upb_arena *a);
void *upb_arena_malloc(upb_arena *a, size_t size);

typedef void upb_msg;
typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0: hasbit, <0: ~oneof-case offset, 0: none */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;
typedef struct upb_msglayout {
  const struct upb_msglayout *const *submsgs;
  const upb_msglayout_field *fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t dense_below;
} upb_msglayout;
enum { _UPB_LABEL_MAP = 4, _UPB_LABEL_PACKED = 7 };

typedef struct { void *data; size_t len, cap; } upb_array;

upb_msg *_upb_msg_new(const upb_msglayout *l, upb_arena *a);
static inline bool _upb_hasbit(const upb_msg *msg, size_t idx) {
  return (((const unsigned char *)msg)[idx / 8] & (1 << (idx % 8))) != 0;
}
static inline void _upb_sethas(const upb_msg *msg, size_t idx) {
  ((unsigned char *)msg)[idx / 8] |= (unsigned char)(1 << (idx % 8));
}
static inline uint32_t _upb_getoneofcase(const upb_msg *msg, size_t ofs) {
  return *(const uint32_t *)((const char *)msg + ofs);
}
static inline bool _upb_has_submsg_nohasbit(const upb_msg *msg, size_t ofs) {
  return *(const upb_msg *const *)((const char *)msg + ofs) != NULL;
}
const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size);
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size);
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size, int lg2, upb_arena *a);
bool _upb_array_append_accessor2(void *msg, size_t ofs, int lg2, const void *value, upb_arena *a);
size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key, size_t ks, void *val, size_t vs);
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter);
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key, size_t ks, void *val, size_t vs, upb_arena *a);
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key, size_t ks);
void _upb_msg_map_clear(upb_msg *msg, size_t ofs);
void _upb_msg_map_key(const void *msg, void *key, size_t size);
void _upb_msg_map_value(const void *msg, void *val, size_t size);
void _upb_msg_map_set_value(void *msg, const void *val, size_t size);

enum { UPB_DECODE_ALIAS = 1 };
bool _upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l, upb_arena *a, int options);
static inline bool upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l, upb_arena *a) {
  return _upb_decode(buf, size, msg, l, a, 0);
}
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *a, size_t *size);
#ifdef UPB_INLINE_DEFINED_BY_MSG
#undef UPB_INLINE
#undef UPB_INLINE_DEFINED_BY_MSG
#endif
#ifdef __cplusplus
}
#endif
#endif
