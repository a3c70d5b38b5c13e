// In native replay absl::Mutex is driven by the recorded schedule.
#include "absl/synchronization/mutex.h"
#include "sx.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { sx_mutex_lock(this); }
void Mutex::Unlock() { sx_mutex_unlock(this); }
bool Mutex::TryLock() { return sx_mutex_trylock(this); }
void Mutex::ReaderLock() { sx_mutex_rlock(this); }
void Mutex::ReaderUnlock() { sx_mutex_runlock(this); }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
Mutex::~Mutex() { sx_mutex_free(this); }
ABSL_NAMESPACE_END
}  // namespace absl
