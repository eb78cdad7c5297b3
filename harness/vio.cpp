#include "vio.h"

#include <aio.h>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <thread>
#include <unordered_map>

using namespace std;

extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

namespace vio {
const char* kindName(int k);
namespace {
mutex gM;
string gDir;
bool gOn = false, gLogOn = false;
Fault gFault;
int64_t gCalls[kKinds];
int64_t gHits = 0, gFaultAt = -1;
Log gLog;
unordered_map<FILE*, int> gFiles;
unordered_map<int, int> gFds;
map<string, int> gIds;

int idOf(const string& path) {
  auto it = gIds.find(path);
  if (it != gIds.end()) {
    return it->second;
  }
  int id = static_cast<int>(gLog.files.size());
  gLog.files.push_back(path);
  gIds[path] = id;
  return id;
}
bool tracked(const char* path) {
  return gOn && path != nullptr && strncmp(path, gDir.c_str(), gDir.size()) == 0;
}
// counts a call, tells if it must fail (gM held)
bool mustFail(Kind k, int id) {
  int64_t n = -1;
  if (gFault.kind == k && (gFault.pathContains.empty() || gLog.files[static_cast<size_t>(id)].find(gFault.pathContains) != string::npos)) {
    n = gCalls[k];
  }
  gCalls[k]++;
  if (n >= 0 && (n == gFault.nth || (gFault.sticky && n >= gFault.nth))) {
    if (gHits++ == 0) {
      gFaultAt = static_cast<int64_t>(gLog.ops.size());
    }
    if (getenv("VIO_DEBUG")) {
      fprintf(stderr, "VIO fails %s #%lld\n", kindName(k), (long long)n);
      __sanitizer_print_stack_trace();
    }
    return true;
  }
  return false;
}
int fileId(FILE* f) {
  auto it = gFiles.find(f);
  return gOn && it != gFiles.end() ? it->second : -1;
}
int fdId(int fd) {
  auto it = gFds.find(fd);
  return gOn && it != gFds.end() ? it->second : -1;
}
void logOp(Kind k, int id, int64_t pos = 0, const void* p = nullptr, size_t n = 0, bool create = false) {
  if (gLogOn) {
    Op op{k, id, pos, {}, create};
    if (n) {
      op.data.assign(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n);
    }
    gLog.ops.push_back(std::move(op));
  }
}

// --- fake aio
AioMode gAio;
vh::Rng gAioRng{1};
int64_t gAioCount = 0, gAioInFlight = 0, gAioMax = 0, gAioReordered = 0, gAioLastDone = -1;
condition_variable gAioCv;
struct AioState {
  int err{EINPROGRESS};
  ssize_t ret{-1};
};
unordered_map<const aiocb*, AioState> gAioStates;
} // namespace

const char* kindName(int k) {
  static const char* names[] = {"open", "write", "seek", "truncate", "flush", "close", "read", "aio", "rename"};
  return k >= 0 && k < kKinds ? names[k] : "none";
}

void begin(const string& dir, bool log, const Fault& fault) {
  lock_guard<mutex> l(gM);
  gDir = dir;
  gOn = true;
  gLogOn = log;
  gFault = fault;
  memset(gCalls, 0, sizeof(gCalls));
  gHits = 0;
  gFaultAt = -1;
  gLog = {};
  gFiles.clear();
  gFds.clear();
  gIds.clear();
}

Log end() {
  lock_guard<mutex> l(gM);
  gOn = false;
  gLogOn = false;
  return std::move(gLog);
}

int64_t faultHits() {
  lock_guard<mutex> l(gM);
  return gHits;
}
int64_t faultAt() {
  lock_guard<mutex> l(gM);
  return gFaultAt;
}
int64_t calls(int kind) {
  lock_guard<mutex> l(gM);
  return gCalls[kind];
}

void setAio(const AioMode& m, uint64_t seed) {
  lock_guard<mutex> l(gM);
  gAio = m;
  gAioRng = vh::Rng(seed);
  gAioCount = 0;
  gAioMax = 0;
  gAioReordered = 0;
  gAioLastDone = -1;
}
int64_t aioMaxInFlight() {
  lock_guard<mutex> l(gM);
  return gAioMax;
}
int64_t aioReordered() {
  lock_guard<mutex> l(gM);
  return gAioReordered;
}
void aioDrain() {
  unique_lock<mutex> l(gM);
  gAioCv.wait_for(l, chrono::seconds(20), [] { return gAioInFlight == 0; });
}

map<string, vector<uint8_t>> snapshot(const Log& log, size_t n, size_t part) {
  map<string, vector<uint8_t>> out;
  for (size_t i = 0; i < log.ops.size() && i < n + (part > 0 ? 1 : 0); i++) {
    auto& op = log.ops[i];
    auto& name = log.files[static_cast<size_t>(op.file)];
    if (op.kind == kOpen) {
      if (op.create || !out.count(name)) {
        out[name].clear();
      }
    } else if (op.kind == kWrite || op.kind == kAio) {
      auto& b = out[name];
      size_t len = i == n ? min(part, op.data.size()) : op.data.size();
      size_t endPos = static_cast<size_t>(op.pos) + len;
      if (len > 0) {
        if (b.size() < endPos) {
          b.resize(endPos);
        }
        memcpy(b.data() + op.pos, op.data.data(), len);
      }
    } else if (op.kind == kTrunc) {
      out[name].resize(static_cast<size_t>(op.pos));
    }
  }
  return out;
}
} // namespace vio

using namespace vio;

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* path, const char* mode) {
  {
    lock_guard<mutex> l(gM);
    if (tracked(path)) {
      int id = idOf(path);
      if (mustFail(kOpen, id)) {
        errno = gFault.err;
        return nullptr;
      }
      FILE* f = __real_fopen(path, mode);
      if (f) {
        gFiles[f] = id;
        if (mode[0] != 'r' || strchr(mode, '+')) {
          logOp(kOpen, id, 0, nullptr, 0, mode[0] == 'w');
        }
      }
      return f;
    }
  }
  return __real_fopen(path, mode);
}
FILE* __wrap_fopen64(const char* path, const char* mode) {
  return __wrap_fopen(path, mode);
}

int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
  bool fail = false;
  {
    lock_guard<mutex> l(gM);
    int id = fileId(f);
    if (id >= 0) {
      fail = mustFail(kClose, id);
      logOp(kClose, id);
    }
    gFiles.erase(f);
  }
  int r = __real_fclose(f);
  if (fail) {
    errno = gFault.err;
    return EOF;
  }
  return r;
}

int64_t vio_ftell(FILE* f) {
  int e = errno;
  int64_t p = ftello(f);
  errno = e;
  return p;
}

size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  {
    lock_guard<mutex> l(gM);
    int id = fileId(f);
    if (id >= 0) {
      if (mustFail(kWrite, id)) {
        size_t done = 0;
        if (gFault.shortWrite && s * n > 1) {
          done = s * n / 2;
          logOp(kWrite, id, vio_ftell(f), p, done);
          done = __real_fwrite(p, 1, done, f) / (s ? s : 1);
        }
        errno = gFault.err;
        return done;
      }
      logOp(kWrite, id, vio_ftell(f), p, s * n);
    }
  }
  return __real_fwrite(p, s, n, f);
}

size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
  {
    lock_guard<mutex> l(gM);
    int id = fileId(f);
    if (id >= 0 && mustFail(kRead, id)) {
      errno = gFault.err;
      return 0;
    }
  }
  return __real_fread(p, s, n, f);
}

#define SEEK_WRAP(name, type)                      \
  int __real_##name(FILE*, type, int);             \
  int __wrap_##name(FILE* f, type o, int w) {      \
    {                                              \
      lock_guard<mutex> l(gM);                     \
      int id = fileId(f);                          \
      if (id >= 0 && mustFail(kSeek, id)) {        \
        errno = gFault.err;                        \
        return -1;                                 \
      }                                            \
      if (id >= 0) { /* flushes what is buffered */ \
        logOp(kSeek, id);                          \
      }                                            \
    }                                              \
    return __real_##name(f, o, w);                 \
  }
SEEK_WRAP(fseeko, off_t)
SEEK_WRAP(fseek, long)

int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) {
  if (f) {
    lock_guard<mutex> l(gM);
    int id = fileId(f);
    if (id >= 0) {
      logOp(kFlush, id);
      if (mustFail(kFlush, id)) {
        errno = gFault.err;
        return EOF;
      }
    }
  }
  return __real_fflush(f);
}

int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t size) {
  {
    lock_guard<mutex> l(gM);
    int id = fdId(fd);
    if (id < 0 && gOn) { // maybe the descriptor of a FILE*
      for (auto& f : gFiles) {
        if (fileno(f.first) == fd) {
          id = f.second;
        }
      }
    }
    if (id >= 0) {
      if (mustFail(kTrunc, id)) {
        errno = gFault.err;
        return -1;
      }
      logOp(kTrunc, id, size);
    }
  }
  return __real_ftruncate(fd, size);
}
int __wrap_ftruncate64(int fd, off_t size) {
  return __wrap_ftruncate(fd, size);
}

int __real_open(const char*, int, ...);
int __wrap_open(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = static_cast<mode_t>(va_arg(ap, int));
    va_end(ap);
  }
  {
    lock_guard<mutex> l(gM);
    if (tracked(path)) {
      int id = idOf(path);
      if (mustFail(kOpen, id)) {
        errno = gFault.err;
        return -1;
      }
      int fd = __real_open(path, flags, mode);
      if (fd >= 0) {
        gFds[fd] = id;
        if ((flags & O_ACCMODE) != O_RDONLY) {
          logOp(kOpen, id, 0, nullptr, 0, (flags & O_TRUNC) != 0);
        }
      }
      return fd;
    }
  }
  return __real_open(path, flags, mode);
}

int __real_close(int);
int __wrap_close(int fd) {
  bool fail = false;
  {
    lock_guard<mutex> l(gM);
    int id = fdId(fd);
    if (id >= 0) {
      fail = mustFail(kClose, id);
      logOp(kClose, id);
    }
    gFds.erase(fd);
  }
  int r = __real_close(fd);
  if (fail) {
    errno = gFault.err;
    return -1;
  }
  return r;
}

ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) {
  {
    lock_guard<mutex> l(gM);
    int id = fdId(fd);
    if (id >= 0) {
      if (mustFail(kWrite, id)) {
        errno = gFault.err;
        if (gFault.shortWrite && n > 1) {
          size_t part = n / 2;
          logOp(kWrite, id, o, p, part);
          return __real_pwrite(fd, p, part, o);
        }
        return -1;
      }
      logOp(kWrite, id, o, p, n);
    }
  }
  return __real_pwrite(fd, p, n, o);
}

ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) {
  {
    lock_guard<mutex> l(gM);
    int id = fdId(fd);
    if (id >= 0 && mustFail(kRead, id)) {
      errno = gFault.err;
      return -1;
    }
  }
  return __real_pread(fd, p, n, o);
}

int __real_aio_write(aiocb*);
int __wrap_aio_write(aiocb* cb) {
  unique_lock<mutex> l(gM);
  int id = fdId(cb->aio_fildes);
  if (id < 0 && !gAio.fake) {
    l.unlock();
    return __real_aio_write(cb);
  }
  if (id >= 0) {
    if (mustFail(kAio, id)) {
      errno = gFault.err;
      return -1;
    }
    logOp(kAio, id, cb->aio_offset, const_cast<const void*>(cb->aio_buf), cb->aio_nbytes);
  }
  if (!gAio.fake) {
    l.unlock();
    return __real_aio_write(cb);
  }
  int64_t n = gAioCount++;
  if ((n == gAio.failSubmitNth || n == gAio.failCompleteNth || n == gAio.shortNth) && gFaultAt < 0) {
    gFaultAt = static_cast<int64_t>(gLog.ops.size()) - (id >= 0 && gLogOn);
  }
  if (n == gAio.failSubmitNth) {
    gHits++;
    errno = EAGAIN;
    return -1;
  }
  bool failC = n == gAio.failCompleteNth, shortC = n == gAio.shortNth;
  gHits += failC + shortC;
  uint32_t delay = gAio.maxDelayUs ? static_cast<uint32_t>(gAioRng.below(gAio.maxDelayUs + 1)) : 0;
  if (gAioRng.chance(0.3)) {
    delay = 0;
  }
  int failErr = gAio.err;
  gAioStates[cb] = AioState{};
  gAioInFlight++;
  gAioMax = max(gAioMax, gAioInFlight);
  thread([=]() {
    if (delay) {
      this_thread::sleep_for(chrono::microseconds(delay));
    }
    ssize_t r = -1;
    int e = failErr;
    if (!failC) {
      size_t len = shortC ? cb->aio_nbytes / 2 : cb->aio_nbytes;
      r = __real_pwrite(cb->aio_fildes, const_cast<const void*>(cb->aio_buf), len, cb->aio_offset);
      e = r < 0 ? errno : 0;
    }
    auto fn = cb->aio_sigevent.sigev_notify_function;
    auto val = cb->aio_sigevent.sigev_value;
    {
      lock_guard<mutex> l2(gM);
      gAioStates[cb] = AioState{e, r};
      gAioReordered += n < gAioLastDone;
      gAioLastDone = max(gAioLastDone, n);
    }
    fn(val); // cb may be gone or reused afterwards
    {
      lock_guard<mutex> l2(gM);
      gAioInFlight--;
      gAioCv.notify_all();
    }
  }).detach();
  return 0;
}
int __real_aio_error(const aiocb*);
int __wrap_aio_error(const aiocb* cb) {
  {
    lock_guard<mutex> l(gM);
    auto it = gAioStates.find(cb);
    if (it != gAioStates.end()) {
      return it->second.err;
    }
  }
  return __real_aio_error(cb);
}
ssize_t __real_aio_return(aiocb*);
ssize_t __wrap_aio_return(aiocb* cb) {
  {
    lock_guard<mutex> l(gM);
    auto it = gAioStates.find(cb);
    if (it != gAioStates.end()) {
      ssize_t r = it->second.ret;
      gAioStates.erase(it);
      return r;
    }
  }
  return __real_aio_return(cb);
}
} // extern "C"
