#include "sut.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
constexpr unsigned X = CAP_X | CAP_TRY | CAP_CHECKED, T = X | CAP_TIMED, S = X | CAP_SHARED, U = S | CAP_TIMED | CAP_STIMED, R = CAP_REC;
using RP = yamc::rwlock::ReaderPrefer; using WP = yamc::rwlock::WriterPrefer;
static const TypeDesc tab[] = {
  MTX("mutex", yamc::checked::mutex, X), MTX("timed_mutex", yamc::checked::timed_mutex, T),
  MTX("recursive_mutex", yamc::checked::recursive_mutex, X | R), MTX("recursive_timed_mutex", yamc::checked::recursive_timed_mutex, T | R),
  MTX("shared_mutex", yamc::checked::shared_mutex, S), MTX("shared_timed_mutex", yamc::checked::shared_timed_mutex, U),
  MTX("shared_mutex.rp", yamc::checked::basic_shared_mutex<RP>, S), MTX("shared_timed_mutex.rp", yamc::checked::basic_shared_timed_mutex<RP>, U),
  MTX("shared_mutex.wp", yamc::checked::basic_shared_mutex<WP>, S), MTX("shared_timed_mutex.wp", yamc::checked::basic_shared_timed_mutex<WP>, U),
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
