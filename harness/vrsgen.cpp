#include "vrsgen.h"

#include <cmath>

#include <cmath>
#include <cfloat>

using namespace vrs;
using namespace std;

namespace vg {

string Rec::str() const {
  return vh::sf(
      "%s %s ts=%.17g ver=%u size=%zu hash=%016llx", id.getNumericName().c_str(), toString(type).c_str(), ts, ver, data.size(),
      (unsigned long long)vh::fnv(data.data(), data.size()));
}

Bytes randomPayload(vh::Rng& r, size_t size) {
  Bytes b(size);
  switch (r.below(6)) {
    case 0: // incompressible
      for (size_t i = 0; i < size; i += 8) {
        uint64_t v = r.next();
        memcpy(b.data() + i, &v, min<size_t>(8, size - i));
      }
      break;
    case 1: // constant
      memset(b.data(), static_cast<int>(r.below(256)), size);
      break;
    case 2: { // text-like
      static const char* words[] = {"vrs ", "record ", "stream ", "0000", "configuration", "\n", "image/raw "};
      size_t i = 0;
      while (i < size) {
        const char* w = words[r.below(7)];
        for (const char* p = w; *p && i < size; ++p) {
          b[i++] = static_cast<uint8_t>(*p);
        }
      }
      break;
    }
    case 3: { // ramps
      uint8_t step = static_cast<uint8_t>(r.below(5));
      uint8_t v = static_cast<uint8_t>(r.below(256));
      for (size_t i = 0; i < size; i++) {
        b[i] = v;
        v = static_cast<uint8_t>(v + step);
      }
      break;
    }
    case 4: { // mostly zero with noise
      for (size_t i = 0; i < size; i++) {
        b[i] = r.below(50) == 0 ? static_cast<uint8_t>(r.next()) : 0;
      }
      break;
    }
    default: { // half random, half repeated
      uint64_t v = 0;
      for (size_t i = 0; i < size; i++) {
        if ((i & 7) == 0 && ((i >> 7) & 1)) {
          v = r.next();
        }
        b[i] = static_cast<uint8_t>(v >> ((i & 7) * 8));
      }
    }
  }
  return b;
}

size_t randomSize(vh::Rng& r, size_t maxSize) {
  static const size_t edges[] = {0, 1, 2, 7, 8, 200, 249, 250, 251, 256, 400, 511, 512, 992, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 131072, 262144};
  size_t n;
  switch (r.below(4)) {
    case 0:
      n = edges[r.below(sizeof(edges) / sizeof(edges[0]))] + r.below(3);
      if (n > 0 && r.chance(0.3)) {
        n--;
      }
      break;
    case 1:
      n = r.below(64);
      break;
    default:
      n = r.skewed(maxSize);
  }
  return min(n, maxSize);
}

string randomText(vh::Rng& r, size_t maxLen, bool printableOnly) {
  static const char* samples[] = {"{\"a\": [1, 2, \"x\"]}", "", " ", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "a=b&c=d", "50%", "\\back\\slash", "\"quoted\"", "tab\tand\nnewline", "/path/to a/file", "null", "0"};
  if (!printableOnly && r.chance(0.25)) {
    string s = samples[r.below(sizeof(samples) / sizeof(samples[0]))];
    if (s.size() <= maxLen) {
      return s;
    }
  }
  size_t n = r.skewed(maxLen);
  string s;
  for (size_t i = 0; i < n; i++) {
    if (printableOnly || r.chance(0.95)) {
      static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-. ";
      s += cs[r.below(sizeof(cs) - 1)];
    } else {
      s += static_cast<char>(1 + r.below(127));
    }
  }
  return s;
}

map<string, string> randomTags(vh::Rng& r, size_t maxCount) {
  map<string, string> m;
  size_t n = r.below(maxCount + 1);
  for (size_t i = 0; i < n; i++) {
    m[randomText(r, 20)] = randomText(r, r.chance(0.1) ? 3000 : 60);
  }
  return m;
}

RecordableTypeId randomType(vh::Rng& r) {
  static const RecordableTypeId types[] = {
      RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::UnitTestRecordableClass,
      RecordableTypeId::AudioStream, RecordableTypeId::SlamCameraData, RecordableTypeId::SlamImuData,
      RecordableTypeId::ForwardCameraRecordableClass, RecordableTypeId::ImageStream, RecordableTypeId::Undefined};
  RecordableTypeId t = types[r.below(sizeof(types) / sizeof(types[0]) - 1)];
  return t;
}

CompressionPreset randomPreset(vh::Rng& r, bool includeSlow) {
  static const CompressionPreset fast[] = {
      CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::Lz4Tight, CompressionPreset::ZstdFaster, CompressionPreset::ZstdFast, CompressionPreset::ZstdLight, CompressionPreset::Default};
  static const CompressionPreset slow[] = {
      CompressionPreset::ZstdMedium, CompressionPreset::ZstdHeavy, CompressionPreset::ZstdHigh, CompressionPreset::ZstdTight, CompressionPreset::ZstdMax};
  if (includeSlow && r.chance(0.15)) {
    return slow[r.below(5)];
  }
  return fast[r.below(7)];
}

namespace {
class DirectData : public DirectWriteRecordData {
 public:
  explicit DirectData(Bytes b) : bytes_{std::move(b)} {}
  size_t getDataSize() const override {
    return bytes_.size();
  }
  int write(WriteFileHandler& file) const override {
    // in two pieces, when possible
    size_t half = bytes_.size() / 2;
    if (half > 0) {
      int e = file.write(bytes_.data(), half);
      if (e != 0) {
        return e;
      }
    }
    return bytes_.size() > half ? file.write(bytes_.data() + half, bytes_.size() - half) : 0;
  }

 private:
  Bytes bytes_;
};
} // namespace

const Record* Stream::add(double ts, Record::Type type, uint32_t ver, Bytes data, size_t direct) {
  if (!isRecordableActive()) {
    // the record is created all the same by the library: callers decide what they expect
  }
  const Record* rec;
  direct = min(direct, data.size());
  if (direct > 0) {
    Bytes head(data.begin(), data.end() - static_cast<ptrdiff_t>(direct));
    Bytes tail(data.end() - static_cast<ptrdiff_t>(direct), data.end());
    rec = createUncompressedRecord(
        ts, type, ver, DataSource(DataSourceChunk(head.data(), head.size())), make_unique<DirectData>(std::move(tail)));
  } else if (chunks == 2 || data.size() < 4) {
    size_t a = data.size() / 3;
    rec = createRecord(ts, type, ver, DataSource(DataSourceChunk(data.data(), a), DataSourceChunk(data.data() + a, data.size() - a)));
  } else if (chunks == 3) {
    size_t a = data.size() / 3, b = data.size() / 2;
    rec = createRecord(
        ts, type, ver,
        DataSource(DataSourceChunk(data.data(), a), DataSourceChunk(data.data() + a, b - a), DataSourceChunk(data.data() + b, data.size() - b)));
  } else {
    rec = createRecord(ts, type, ver, DataSource(DataSourceChunk(data.data(), data.size())));
  }
  log.push_back(Rec{getStreamId(), type, ts, ver, std::move(data)});
  return rec;
}

const Record* Stream::createConfigurationRecord() {
  if (!autoConfig) {
    return nullptr;
  }
  return add(autoTs, Record::Type::CONFIGURATION, 1, Bytes{'c', 'f', 'g'});
}

const Record* Stream::createStateRecord() {
  if (!autoState) {
    return nullptr;
  }
  return add(autoTs, Record::Type::STATE, 1, Bytes{});
}

bool Collector::processRecordHeader(const CurrentRecord& r, DataReference& d) {
  if (r.recordSize > (64u << 20)) { // a damaged header: none of our recordings is that large
    anomalies.push_back(vh::sf("record of %u bytes", r.recordSize));
    return false;
  }
  buf.assign(r.recordSize, 0xA5);
  d.useRawData(buf.data(), r.recordSize);
  return true;
}

void Collector::processRecord(const CurrentRecord& r, uint32_t n) {
  if (n != r.recordSize) {
    anomalies.push_back(vh::sf("record delivered with %u bytes instead of %u", n, r.recordSize));
  }
  recs.push_back(Rec{r.streamId, r.recordType, r.timestamp, r.formatVersion, buf});
}

int readOne(RecordFileReader& reader, const IndexRecord::RecordInfo& info, Rec& out, string* anomaly) {
  Collector c;
  int status = reader.readRecord(info, &c);
  if (status == 0) {
    if (c.recs.size() != 1) {
      if (anomaly) {
        *anomaly = vh::sf("readRecord delivered %zu records", c.recs.size());
      }
      return -12345;
    }
    out = std::move(c.recs[0]);
    if (!c.anomalies.empty() && anomaly) {
      *anomaly = c.anomalies[0];
    }
    if (anomaly && (out.id != info.streamId || out.type != info.recordType || memcmp(&out.ts, &info.timestamp, 8) != 0)) {
      *anomaly = vh::sf(
          "index says %s %s %.17g but the record is %s", info.streamId.getNumericName().c_str(), toString(info.recordType).c_str(), info.timestamp, out.str().c_str());
    }
  } else if (!c.recs.empty() && anomaly) {
    *anomaly = "a record was delivered although its read failed";
  }
  return status;
}

void readContent(RecordFileReader& reader, FileContent& out) {
  out.hasIndex = reader.hasIndex();
  out.tags = reader.getTags();
  out.streams = reader.getStreams();
  for (auto id : out.streams) {
    out.streamTags[id] = reader.getTags(id);
  }
  const auto& index = reader.getIndex();
  for (const auto& info : index) {
    Rec r;
    string anomaly;
    int s = readOne(reader, info, r, &anomaly);
    out.readStatus.push_back(s);
    if (s != 0) {
      r.id = info.streamId;
      r.type = info.recordType;
      r.ts = info.timestamp;
    }
    out.recs.push_back(std::move(r));
    if (!anomaly.empty()) {
      out.anomalies.push_back(anomaly);
    }
  }
}

FileContent readFile(const string& path, bool autoWriteFixedIndex) {
  FileContent f;
  RecordFileReader reader;
  f.status = reader.openFile(path, autoWriteFixedIndex);
  if (f.status == 0) {
    readContent(reader, f);
  }
  return f;
}

string diffOrdered(const vector<Rec>& e, const vector<Rec>& g) {
  size_t n = min(e.size(), g.size());
  for (size_t i = 0; i < n; i++) {
    if (!(e[i] == g[i])) {
      return vh::sf("record %zu of %zu/%zu: expected %s, got %s", i, e.size(), g.size(), e[i].str().c_str(), g[i].str().c_str());
    }
  }
  if (e.size() != g.size()) {
    return vh::sf("%zu records expected, %zu found; first extra: %s", e.size(), g.size(), (e.size() > n ? e[n] : g[n]).str().c_str());
  }
  return {};
}

void sortPlayback(vector<Rec>& recs) {
  stable_sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) { return a.ts < b.ts || (a.ts == b.ts && a.id < b.id); });
}

string diffMultiset(vector<Rec> e, vector<Rec> g) {
  auto less = [](const Rec& a, const Rec& b) {
    bool an = signbit(a.ts), bn = signbit(b.ts); // 0 and -0 are different values of a record, though equal times
    return tie(a.ts, an, a.id, a.type, a.ver, a.data) < tie(b.ts, bn, b.id, b.type, b.ver, b.data);
  };
  sort(e.begin(), e.end(), less);
  sort(g.begin(), g.end(), less);
  return diffOrdered(e, g);
}

string diffTags(const map<string, string>& e, const map<string, string>& g) {
  for (auto& k : e) {
    auto it = g.find(k.first);
    if (it == g.end()) {
      return "missing tag '" + vh::printable(k.first) + "'";
    }
    if (it->second != k.second) {
      return "tag '" + vh::printable(k.first) + "' is '" + vh::printable(it->second) + "' instead of '" + vh::printable(k.second) + "'";
    }
  }
  for (auto& k : g) {
    if (!e.count(k.first)) {
      return "unexpected tag '" + vh::printable(k.first) + "'";
    }
  }
  return {};
}

} // namespace vg
