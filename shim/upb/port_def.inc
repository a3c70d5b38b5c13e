#ifdef __cplusplus
#define UPB_INLINE inline
#else
#define UPB_INLINE static inline
#endif
#define UPB_SIZE(size32, size64) (sizeof(void *) == 4 ? (size32) : (size64))
#define UPB_PTR_AT(msg, ofs, type) ((type *)((char *)(msg) + (ofs)))
#define UPB_READ_ONEOF(msg, fieldtype, offset, case_offset, case_val, default) \
  *UPB_PTR_AT(msg, case_offset, int) == case_val ? *UPB_PTR_AT(msg, offset, fieldtype) : default
#define UPB_WRITE_ONEOF(msg, fieldtype, offset, value, case_offset, case_val) \
  *UPB_PTR_AT(msg, case_offset, int) = case_val; *UPB_PTR_AT(msg, offset, fieldtype) = value;
