// Abseil is installed as headers plus binaries; this is the out-of-line part the
// code uses, as source for the executor.  Error-message text carries no meaning.
#include <atomic>
#include <string>
#include <string.h>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/synchronization/mutex.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/flat_hash_map.h"
#include "absl/types/bad_variant_access.h"
#include "absl/types/bad_optional_access.h"
#include "absl/hash/hash.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/throw_delegate.h"
#include "sx.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// ---- Status
constexpr const char Status::kMovedFromString[];
void Status::UnrefNonInlined(uintptr_t rep) {
  status_internal::StatusRep *r = RepToPointer(rep);
  if (r->ref.load(std::memory_order_acquire) == 1 || r->ref.fetch_sub(1, std::memory_order_acq_rel) - 1 == 0) delete r;
}
Status::Status(absl::StatusCode code, absl::string_view msg) : rep_(CodeToInlinedRep(code)) {
  if (code != absl::StatusCode::kOk && !msg.empty()) rep_ = PointerToRep(new status_internal::StatusRep(code, msg, nullptr));
}
int Status::raw_code() const {
  if (IsInlined(rep_)) return static_cast<int>(InlinedRepToCode(rep_));
  return static_cast<int>(RepToPointer(rep_)->code);
}
static StatusCode MapCode(int v) { return v >= 0 && v <= 16 ? static_cast<StatusCode>(v) : StatusCode::kUnknown; }
absl::StatusCode Status::code() const { return MapCode(raw_code()); }
namespace status_internal { absl::StatusCode MapToLocalCode(int v) { return MapCode(v); } }
bool Status::EqualsSlow(const absl::Status &a, const absl::Status &b) {
  return a.raw_code() == b.raw_code() && a.message() == b.message();
}
void Status::PrepareToModify() {}
std::string Status::ToStringSlow(StatusToStringMode) const {
  absl::string_view m = message();
  return std::string(m.data(), m.size());
}
std::string StatusCodeToString(StatusCode) { return "code"; }
std::ostream &operator<<(std::ostream &os, const Status &) { return os; }
std::ostream &operator<<(std::ostream &os, StatusCode) { return os; }
#define E(N) Status N##Error(absl::string_view m) { return Status(StatusCode::k##N, m); }
E(Aborted) E(AlreadyExists) E(Cancelled) E(DataLoss) E(DeadlineExceeded) E(FailedPrecondition) E(Internal) E(InvalidArgument)
E(NotFound) E(OutOfRange) E(PermissionDenied) E(ResourceExhausted) E(Unauthenticated) E(Unavailable) E(Unimplemented) E(Unknown)
#undef E
#define E(N) bool Is##N(const Status &s) { return s.code() == StatusCode::k##N; }
E(Aborted) E(AlreadyExists) E(Cancelled) E(DataLoss) E(DeadlineExceeded) E(FailedPrecondition) E(Internal) E(InvalidArgument)
E(NotFound) E(OutOfRange) E(PermissionDenied) E(ResourceExhausted) E(Unauthenticated) E(Unavailable) E(Unimplemented) E(Unknown)
#undef E
namespace internal_statusor {
void Helper::HandleInvalidStatusCtorArg(Status *s) { *s = Status(StatusCode::kInternal, "An OK status is not a valid constructor argument"); }
void Helper::Crash(const absl::Status &) { abort(); }
void ThrowBadStatusOrAccess(absl::Status) { abort(); }
}  // namespace internal_statusor
namespace variant_internal {
[[noreturn]] void ThrowBadVariantAccess() { abort(); }
[[noreturn]] void Rethrow() { abort(); }
}  // namespace variant_internal
namespace optional_internal { [[noreturn]] void throw_bad_optional_access() { abort(); } }
namespace base_internal {
[[noreturn]] void ThrowStdOutOfRange(const char *) { abort(); }
[[noreturn]] void ThrowStdLengthError(const char *) { abort(); }
[[noreturn]] void ThrowStdInvalidArgument(const char *) { abort(); }
[[noreturn]] void ThrowStdBadFunctionCall() { abort(); }
[[noreturn]] void ThrowStdBadAlloc() { abort(); }
}  // namespace base_internal
// ---- strings.  Numbers are rendered as "#": their digits never matter here.
namespace numbers_internal {
static char *one(char *p) { p[0] = '#'; p[1] = 0; return p + 1; }
char *FastIntToBuffer(int32_t, char *p) { return one(p); }
char *FastIntToBuffer(uint32_t, char *p) { return one(p); }
char *FastIntToBuffer(int64_t, char *p) { return one(p); }
char *FastIntToBuffer(uint64_t, char *p) { return one(p); }
size_t SixDigitsToBuffer(double, char *p) { one(p); return 1; }
}  // namespace numbers_internal
AlphaNum::AlphaNum(Hex) { digits_[0] = '#'; piece_ = absl::string_view(digits_, 1); }
AlphaNum::AlphaNum(Dec) { digits_[0] = '#'; piece_ = absl::string_view(digits_, 1); }
static void app(std::string *s, absl::string_view v) { s->append(v.data(), v.size()); }
std::string StrCat(const AlphaNum &a, const AlphaNum &b) { std::string s; app(&s, a.Piece()); app(&s, b.Piece()); return s; }
std::string StrCat(const AlphaNum &a, const AlphaNum &b, const AlphaNum &c) { std::string s; app(&s, a.Piece()); app(&s, b.Piece()); app(&s, c.Piece()); return s; }
std::string StrCat(const AlphaNum &a, const AlphaNum &b, const AlphaNum &c, const AlphaNum &d) { std::string s; app(&s, a.Piece()); app(&s, b.Piece()); app(&s, c.Piece()); app(&s, d.Piece()); return s; }
void StrAppend(std::string *s, const AlphaNum &a) { app(s, a.Piece()); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b) { app(s, a.Piece()); app(s, b.Piece()); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b, const AlphaNum &c) { app(s, a.Piece()); app(s, b.Piece()); app(s, c.Piece()); }
void StrAppend(std::string *s, const AlphaNum &a, const AlphaNum &b, const AlphaNum &c, const AlphaNum &d) { app(s, a.Piece()); app(s, b.Piece()); app(s, c.Piece()); app(s, d.Piece()); }
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> p) { std::string s; for (auto &x : p) app(&s, x); return s; }
void AppendPieces(std::string *d, std::initializer_list<absl::string_view> p) { for (auto &x : p) app(d, x); }
int memcasecmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x >= 'A' && x <= 'Z') x += 32;
    if (y >= 'A' && y <= 'Z') y += 32;
    if (x != y) return (int)x - (int)y;
  }
  return 0;
}
}  // namespace strings_internal
bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept { return a.size() == b.size() && strings_internal::memcasecmp(a.data(), b.data(), a.size()) == 0; }
static const char kHexD[] = "0123456789abcdef";
std::string BytesToHexString(absl::string_view f) { std::string r; for (unsigned char c : f) { r.push_back(kHexD[c >> 4]); r.push_back(kHexD[c & 15]); } return r; }
constexpr string_view::size_type string_view::npos;
constexpr string_view::size_type string_view::kMaxSize;
string_view::size_type string_view::find(string_view s, size_type pos) const noexcept {
  if (s.size() > size()) return npos;
  for (size_type i = pos; i + s.size() <= size(); i++) if (memcmp(data() + i, s.data(), s.size()) == 0) return i;
  return npos;
}
string_view::size_type string_view::find(char c, size_type pos) const noexcept {
  for (size_type i = pos; i < size(); i++) if (data()[i] == c) return i;
  return npos;
}
namespace str_format_internal {
std::string FormatPack(UntypedFormatSpecImpl, absl::Span<const FormatArgImpl>) { return "formatted"; }
std::string &AppendPack(std::string *out, UntypedFormatSpecImpl, absl::Span<const FormatArgImpl>) { out->append("formatted"); return *out; }
}  // namespace str_format_internal
// ---- hashing: a constant hash keeps every container lookup exhaustive
namespace hash_internal {
const void *const MixingHashState::kSeed = &MixingHashState::kSeed;
uint64_t MixingHashState::LowLevelHashImpl(const unsigned char *, size_t) { return 1; }
uint64_t MixingHashState::CombineLargeContiguousImpl64(uint64_t, const unsigned char *, size_t) { return 1; }
uint64_t MixingHashState::CombineLargeContiguousImpl32(uint64_t, const unsigned char *, size_t) { return 1; }
}  // namespace hash_internal
namespace container_internal {
alignas(16) ABSL_CONST_INIT ABSL_DLL const ctrl_t kEmptyGroup[16] = {
    ctrl_t::kSentinel, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty,    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty};
constexpr size_t Group::kWidth;
bool ShouldInsertBackwards(size_t, const ctrl_t *) { return false; }
template FindInfo find_first_non_full(const ctrl_t *, size_t, size_t);
void ConvertDeletedToEmptyAndFullToDeleted(ctrl_t *ctrl, size_t capacity) {
  for (size_t i = 0; i < capacity; i++) ctrl[i] = IsFull(ctrl[i]) ? ctrl_t::kDeleted : ctrl_t::kEmpty;
  memcpy(ctrl + capacity + 1, ctrl, NumClonedBytes());
  ctrl[capacity] = ctrl_t::kSentinel;
}
}  // namespace container_internal
namespace raw_logging_internal {
void RawLog(absl::LogSeverity s, const char *, int, const char *, ...) { if (s == absl::LogSeverity::kFatal) abort(); }
}
// ---- Mutex
void Mutex::Lock() { sx_mutex_lock(this); }
void Mutex::Unlock() { sx_mutex_unlock(this); }
bool Mutex::TryLock() { return sx_mutex_trylock(this); }
void Mutex::ReaderLock() { sx_mutex_rlock(this); }
void Mutex::ReaderUnlock() { sx_mutex_runlock(this); }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
Mutex::~Mutex() { sx_mutex_free(this); }
// what an earlier check in this header set used, kept so any StrFormat links
ABSL_NAMESPACE_END
}  // namespace absl
