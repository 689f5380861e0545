#include "sut.hpp"
#include "checked_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "posix_native_mutex.hpp"

constexpr unsigned X = CAP_X | CAP_TRY | CAP_SHARED, T = X | CAP_TIMED | CAP_STIMED, C = CAP_CHECKED, N = CAP_NATIVE;
using RP = yamc::rwlock::ReaderPrefer; using WP = yamc::rwlock::WriterPrefer;
using TF = yamc::rwlock::TaskFairness; using PF = yamc::rwlock::PhaseFairness;
static const TypeDesc tab[] = {
  MTX("checked.shared_mutex", yamc::checked::shared_mutex, X | C), MTX("checked.shared_timed_mutex", yamc::checked::shared_timed_mutex, T | C),
  MTX("checked.shared_mutex.rp", yamc::checked::basic_shared_mutex<RP>, X | C), MTX("checked.shared_timed_mutex.rp", yamc::checked::basic_shared_timed_mutex<RP>, T | C),
  MTX("checked.shared_mutex.wp", yamc::checked::basic_shared_mutex<WP>, X | C), MTX("checked.shared_timed_mutex.wp", yamc::checked::basic_shared_timed_mutex<WP>, T | C),
  MTX("alternate.shared_mutex", yamc::alternate::shared_mutex, X), MTX("alternate.shared_timed_mutex", yamc::alternate::shared_timed_mutex, T),
  MTX("alternate.shared_mutex.rp", yamc::alternate::basic_shared_mutex<RP>, X), MTX("alternate.shared_timed_mutex.rp", yamc::alternate::basic_shared_timed_mutex<RP>, T),
  MTX("alternate.shared_mutex.wp", yamc::alternate::basic_shared_mutex<WP>, X), MTX("alternate.shared_timed_mutex.wp", yamc::alternate::basic_shared_timed_mutex<WP>, T),
  MTX("fair.shared_mutex", yamc::fair::shared_mutex, X), MTX("fair.shared_timed_mutex", yamc::fair::shared_timed_mutex, T),
  MTX("fair.shared_mutex.task", yamc::fair::basic_shared_mutex<TF>, X), MTX("fair.shared_timed_mutex.task", yamc::fair::basic_shared_timed_mutex<TF>, T),
  MTX("fair.shared_mutex.phase", yamc::fair::basic_shared_mutex<PF>, X), MTX("fair.shared_timed_mutex.phase", yamc::fair::basic_shared_timed_mutex<PF>, T),
  MTX("posix.rwlock", yamc::posix::rwlock, T | CAP_SYSONLY | N),
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
