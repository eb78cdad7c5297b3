// Generators and readers shared by the drivers: random recordings, written through the public writer API, and full
// read back of a file through the public reader API.
#pragma once
#include "vh.h"

#include <functional>
#include <memory>
#include <tuple>

#include <vrs/DataSource.h>
#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/IndexRecord.h>
#include <vrs/MultiRecordFileReader.h>
#include <vrs/Record.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordReaders.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>

namespace vg {

using Bytes = std::vector<uint8_t>;

// one record, as handed in or as read back
struct Rec {
  vrs::StreamId id;
  vrs::Record::Type type{};
  double ts{};
  uint32_t ver{};
  Bytes data;
  bool operator==(const Rec& r) const {
    return id == r.id && type == r.type && memcmp(&ts, &r.ts, sizeof(ts)) == 0 && ver == r.ver && data == r.data;
  }
  std::string str() const;
};

Bytes randomPayload(vh::Rng& r, size_t size);
// size distributions around the thresholds that matter (compression minimum, copy limits, 64 KB buffers)
size_t randomSize(vh::Rng& r, size_t maxSize);
std::string randomText(vh::Rng& r, size_t maxLen, bool printableOnly = false);
std::map<std::string, std::string> randomTags(vh::Rng& r, size_t maxCount);
vrs::RecordableTypeId randomType(vh::Rng& r);
vrs::CompressionPreset randomPreset(vh::Rng& r, bool includeSlow);

// A recordable that remembers everything it was asked to record
class Stream : public vrs::Recordable {
 public:
  Stream(vrs::RecordableTypeId type, const std::string& flavor = {}) : vrs::Recordable(type, flavor) {}
  // direct: number of trailing bytes handed over as "direct write" data
  const vrs::Record* add(double ts, vrs::Record::Type type, uint32_t ver, Bytes data, size_t direct = 0);
  const vrs::Record* createConfigurationRecord() override;
  const vrs::Record* createStateRecord() override;
  std::vector<Rec> log; // in creation order
  bool autoConfig{true};
  bool autoState{true};
  double autoTs{0};
  uint32_t chunks{1}; // the payload is handed over as that many separate pieces (1..3)
  using vrs::Recordable::getVRSTags;
};

// Everything a file holds
struct FileContent {
  int status{-1};
  bool hasIndex{};
  std::map<std::string, std::string> tags;
  std::map<vrs::StreamId, vrs::StreamTags> streamTags;
  std::set<vrs::StreamId> streams;
  std::vector<Rec> recs; // in playback order
  std::vector<int> readStatus; // per record
  std::vector<std::string> anomalies; // oddities met while reading
};

// reads one record fully; returns the status of the read
int readOne(vrs::RecordFileReader& reader, const vrs::IndexRecord::RecordInfo& info, Rec& out, std::string* anomaly = nullptr);
void readContent(vrs::RecordFileReader& reader, FileContent& out);
FileContent readFile(const std::string& path, bool autoWriteFixedIndex = false);

// reader.readAllRecords() collecting everything (instead of record by record)
struct Collector : public vrs::StreamPlayer {
  std::vector<Rec> recs;
  std::vector<std::string> anomalies;
  Bytes buf;
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& d) override;
  void processRecord(const vrs::CurrentRecord& r, uint32_t n) override;
};

// "" when both lists hold the same records (as multisets per stream) else a description of the difference
std::string diffMultiset(std::vector<Rec> expected, std::vector<Rec> got);
// same, in the same order
std::string diffOrdered(const std::vector<Rec>& expected, const std::vector<Rec>& got);
// playback order of a set of records in creation order: by time, then stream, then creation
void sortPlayback(std::vector<Rec>& recs);
std::string diffTags(const std::map<std::string, std::string>& e, const std::map<std::string, std::string>& g);

} // namespace vg
