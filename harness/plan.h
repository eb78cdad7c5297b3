// Random recordings as data: a plan can be executed several times (with other writer settings, or under faults) and
// always records the same thing.
#pragma once
#include "vrsgen.h"

namespace vg {

struct PlanStream {
  vrs::RecordableTypeId type{};
  std::string flavor;
  std::map<std::string, std::string> tags;
  vrs::CompressionPreset preset{};
  bool autoConfig{true}, autoState{true};
  double autoTs{0};
  uint32_t chunks{1};
};
struct PlanRecord {
  size_t stream{};
  vrs::Record::Type type{};
  double ts{};
  uint32_t ver{};
  Bytes data;
  size_t direct{};
  bool flushAfter{}; // writeRecordsAsync(ts) after creating it
};
enum How { kSync, kAsync, kSplitHead, kChunked, kHowCount };

struct Plan {
  std::vector<PlanStream> streams;
  std::map<std::string, std::string> tags;
  std::vector<PlanRecord> records;
  How how{kSync};
  size_t threads{};
  size_t chunkMB{}; // 0: no limit
  std::string engine; // "" default, or sync/psync/aio for asyncdiskfile
  std::map<std::string, std::string> extras;
  size_t prealloc{}; // records in the preallocated index, 0 = none
  std::string str() const;
};

struct PlanOptions {
  size_t maxStreams{4};
  size_t maxRecords{40};
  size_t maxSize{600};
  bool engines{true}; // also asyncdiskfile
  bool increasing{false}; // timestamps in creation order
  bool extremes{true};
  bool direct{true};
  int how{-1};
};
Plan randomPlan(vh::Rng& r, const PlanOptions& o);

struct Recording {
  std::vector<std::unique_ptr<Stream>> streams;
  std::vector<Rec> expected; // everything handed in, in playback order
  int status{0};
  std::string failedAt; // the call that failed
};
// calls: told before each call of the API
Recording execute(const Plan& p, const std::string& path);

// layout of a complete file
struct Placed {
  size_t rec; // index in FileContent::recs
  std::string path; // chunk file
  int64_t begin, end; // in the chunk
};
struct Layout {
  std::vector<std::pair<std::string, int64_t>> chunks;
  int64_t descriptionEnd{}; // in the first chunk
  std::vector<Placed> records; // in file order
  FileContent content;
};
// "" or what is wrong
std::string layoutOf(const std::string& path, Layout& out);

} // namespace vg
