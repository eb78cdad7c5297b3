#include "perturb.h"
#include <atomic>
#include <cstdio>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

// Everything relaxed: the instrumentation must not add synchronisation that would hide races.
#define RLX std::memory_order_relaxed
namespace {
std::atomic<bool> sOn{false};
std::atomic<uint64_t> sSeed{1}, sThread{0}, sEpoch{0}, sPauses{0}, sOps{0}, sSig{0};
std::atomic<unsigned> sPerMille{0}, sMaxUs{0}, sIoUs{0};
thread_local uint64_t tRng = 0, tEpoch = 0, tId = 0;

uint64_t next() {
  if (tEpoch != sEpoch.load(RLX) || tRng == 0) {
    tEpoch = sEpoch.load(RLX);
    tId = sThread.fetch_add(1, RLX) + 1;
    tRng = (sSeed.load(RLX) + tId) * 0x9e3779b97f4a7c15ULL + 1;
  }
  tRng ^= tRng << 13;
  tRng ^= tRng >> 7;
  tRng ^= tRng << 17;
  return tRng;
}
void pause(unsigned maxUs) {
  sPauses.fetch_add(1, RLX);
  uint64_t r = next();
  if (maxUs == 0 || r % 3 == 0) {
    sched_yield();
  } else {
    // mostly short
    unsigned limit = (r >> 8) % 8 == 0 ? maxUs : maxUs / 10 + 1;
    usleep(static_cast<unsigned>((r >> 16) % (limit + 1)));
  }
}
void op() {
  if (sOn.load(RLX)) {
    sOps.fetch_add(1, RLX);
    uint64_t r = next();
    uint64_t s = sSig.load(RLX);
    sSig.store((s ^ tId) * 1099511628211ULL, RLX);
    if ((r >> 20) % 1000 < sPerMille.load(RLX)) {
      pause(sMaxUs.load(RLX));
    }
  }
}
} // namespace

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  op();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int e = __real_pthread_mutex_unlock(m);
  op();
  return e;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  if (sOn.load(RLX) && sIoUs.load(RLX) > 0 && f != stderr && f != stdout && next() % 4 == 0) {
    pause(sIoUs.load(RLX));
  }
  return __real_fwrite(p, s, n, f);
}
}

namespace perturb {
void start(uint64_t seed, unsigned perMille, unsigned maxUs, unsigned ioUs) {
  sSeed.store(seed, RLX);
  sPerMille.store(perMille, RLX);
  sMaxUs.store(maxUs, RLX);
  sIoUs.store(ioUs, RLX);
  sPauses.store(0, RLX);
  sOps.store(0, RLX);
  sSig.store(1469598103934665603ULL, RLX);
  sThread.store(0, RLX);
  sEpoch.fetch_add(1, RLX);
  sOn.store(true, RLX);
}
void stop() {
  sOn.store(false, RLX);
}
uint64_t pauses() {
  return sPauses.load(RLX);
}
uint64_t lockOps() {
  return sOps.load(RLX);
}
uint64_t signature() {
  return sSig.load(RLX);
}
} // namespace perturb
