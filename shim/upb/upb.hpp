#ifndef UPB_SHIM_HPP_
#define UPB_SHIM_HPP_
#include "upb/msg.h"
namespace upb {
class Arena {
 public:
  Arena() : a_(upb_arena_new()) {}
  ~Arena() { upb_arena_free(a_); }
  Arena(const Arena &) = delete;
  Arena &operator=(const Arena &) = delete;
  upb_arena *ptr() { return a_; }
 private:
  upb_arena *a_;
};
}  // namespace upb
#endif
