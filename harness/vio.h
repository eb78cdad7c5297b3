// Interposed file I/O: the libc calls the library uses to write files are wrapped (ld --wrap, see the WRAP line of the
// drivers), to log what is written where and when, and to inject failures, short writes and delays.
// Only files under the folder given to begin() are affected.
#pragma once
#include "vh.h"

namespace vio {

enum Kind { kOpen = 0, kWrite, kSeek, kTrunc, kFlush, kClose, kRead, kAio, kRename, kKinds };
const char* kindName(int k);

struct Op {
  Kind kind;
  int file; // index in Log::files
  int64_t pos{}; // write offset, new size for kTrunc
  std::vector<uint8_t> data;
  bool create{}; // kOpen which empties the file
};

struct Log {
  std::vector<std::string> files; // full paths
  std::vector<Op> ops; // in the order they were issued
};

struct Fault {
  int kind{-1}; // which calls fail
  int64_t nth{0}; // counted from begin(), 0 based
  int err{28}; // ENOSPC
  bool sticky{false}; // all calls of that kind from nth on fail, not only that one
  bool shortWrite{false}; // a write stores part of the data
  std::string pathContains; // only the files matching
};

// what to do from now on
void begin(const std::string& dir, bool log, const Fault& fault = {});
// stops and returns the log; faultHits: how many calls were failed
Log end();
int64_t faultHits();
int64_t faultAt(); // how many operations had been logged when a call was failed, -1 if none was
int64_t calls(int kind);

// asynchronous writes (aio_write) executed by our own threads, after random delays, completing in any order
struct AioMode {
  bool fake{false};
  uint32_t maxDelayUs{0};
  int64_t failSubmitNth{-1}; // aio_write itself fails
  int64_t failCompleteNth{-1}; // the write fails later
  int64_t shortNth{-1}; // the write is cut short
  int err{28};
};
void setAio(const AioMode& m, uint64_t seed);
int64_t aioMaxInFlight();
int64_t aioReordered(); // completions that overtook an earlier submission
void aioDrain(); // waits until no fake write is in flight

// files after the first n operations, and `part` bytes of operation n if it is a write.
std::map<std::string, std::vector<uint8_t>> snapshot(const Log& log, size_t n, size_t part);

} // namespace vio
