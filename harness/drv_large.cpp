// Positions and sizes over 2 and 4 GB: recordings made of huge records, written as sparse files (C01), sparse chunk files
// read and edited as one file (C08, mode chunks), asynchronous writing far in a file (C09, mode async).
// WITH: vrsgen
#include "vrsgen.h"

#include <atomic>
#include <filesystem>
#include <thread>

#include <vrs/DiskFile.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileFormat.h>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {

const vector<uint8_t>& zeros() {
  static const vector<uint8_t> z(1 << 20);
  return z;
}

// What's written for real is limited: should the library ever put our zeros in buffers of its own, this can't be tested.
atomic<int64_t> gDense{0};
constexpr int64_t kDenseLimit = 64 << 20;

// leaves holes instead of writing our zeros
class SparseFile : public DiskFile {
 public:
  unique_ptr<FileHandler> makeNew() const override {
    return make_unique<SparseFile>();
  }
  int write(const void* buffer, size_t length) override {
    if (buffer == zeros().data()) {
      return setPos(getPos() + static_cast<int64_t>(length));
    }
    if ((gDense += static_cast<int64_t>(length)) > kDenseLimit) {
      return ENOSPC;
    }
    return DiskFile::write(buffer, length);
  }
};

// zeros, then a tail
class HugeData : public DirectWriteRecordData {
 public:
  HugeData(size_t hole, Bytes tail) : hole_{hole}, tail_{std::move(tail)} {}
  size_t getDataSize() const override {
    return hole_ + tail_.size();
  }
  int write(WriteFileHandler& file) const override {
    for (size_t left = hole_; left > 0;) {
      size_t n = min(left, zeros().size());
      int e = file.write(zeros().data(), n);
      if (e != 0) {
        return e;
      }
      left -= n;
    }
    return file.write(tail_.data(), tail_.size());
  }

 private:
  size_t hole_;
  Bytes tail_;
};

struct Huge {
  StreamId id;
  Record::Type type{};
  double ts{};
  uint32_t ver{};
  Bytes head, tail;
  size_t hole{};
  size_t size() const {
    return head.size() + hole + tail.size();
  }
};

class HugeStream : public Recordable {
 public:
  explicit HugeStream(RecordableTypeId id) : Recordable(id) {
    setCompression(CompressionPreset::None);
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  void add(const Huge& h) {
    createUncompressedRecord(h.ts, h.type, h.ver, DataSource(DataSourceChunk(h.head.data(), h.head.size())), make_unique<HugeData>(h.hole, h.tail));
  }
};

struct HugePlayer : public StreamPlayer {
  Case& c;
  const Huge* want{};
  bool tail{};
  size_t seen{};
  Bytes buffer;
  explicit HugePlayer(Case& c) : c(c) {}
  bool processRecordHeader(const CurrentRecord& r, DataReference& d) override {
    c.check(r.recordSize == want->size() && r.timestamp == want->ts && r.formatVersion == want->ver && r.recordType == want->type && r.streamId == want->id, "large-record",
            "size %u ts %g version %u, expected size %zu ts %g version %u", r.recordSize, r.timestamp, r.formatVersion, want->size(), want->ts, want->ver);
    buffer.assign(want->head.size(), 0xA7);
    d.useVector(buffer);
    return true;
  }
  void processRecord(const CurrentRecord& r, uint32_t) override {
    c.check(buffer == want->head, "large-record-content", "the first %zu bytes of the record at %g differ", buffer.size(), want->ts);
    c.check(r.reader->getUnreadBytes() == want->hole + want->tail.size(), "large-record-unread", "%u bytes left, %zu expected", r.reader->getUnreadBytes(), want->hole + want->tail.size());
    if (tail) { // to its end
      Bytes piece(1 << 20);
      size_t left = want->hole;
      while (left > 0) {
        piece.resize(min<size_t>(left, 1 << 20));
        if (!c.check(r.reader->read(piece) == 0, "large-record-read", "%zu bytes left", left)) {
          return;
        }
        left -= piece.size();
      }
      Bytes end(want->tail.size());
      c.check(r.reader->read(end) == 0 && end == want->tail, "large-record-tail", "the last %zu bytes of the record at %g differ", end.size(), want->ts);
      c.count("read_to_the_end");
    }
    seen++;
  }
};

Bytes randomBytes(vh::Rng& r, size_t n) {
  Bytes b(n);
  for (auto& x : b) {
    x = static_cast<uint8_t>(r.next());
  }
  return b;
}

bool holesWork(Case& c) {
  string path = c.file("try");
  int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
  bool ok = fd >= 0 && pwrite(fd, "x", 1, 1LL << 36) == 1;
  struct stat st{};
  ok = ok && fstat(fd, &st) == 0 && st.st_blocks < 1000;
  close(fd);
  unlink(path.c_str());
  if (!ok) {
    c.count("no_sparse_files");
  }
  return ok;
}

void checkRecording(Case& c, const string& path, vector<Huge>& all, const string& what) {
  auto& r = c.rng;
  RecordFileReader reader;
  int s = reader.openFile(path);
  if (!c.check(s == 0, "large-open", "%s: %d", what.c_str(), s)) {
    return;
  }
  auto& index = reader.getIndex();
  if (!c.check(index.size() == all.size(), "large-index", "%s: %zu records, %zu expected", what.c_str(), index.size(), all.size())) {
    return;
  }
  HugePlayer player(c);
  for (auto id : reader.getStreams()) {
    reader.setStreamPlayer(id, &player);
  }
  vector<size_t> order(all.size());
  for (size_t i = 0; i < order.size(); i++) {
    order[i] = i;
  }
  r.shuffle(order);
  size_t full = r.below(order.size());
  for (size_t i : order) {
    player.want = &all[i];
    player.tail = i == full && all[i].hole < (200u << 20);
    s = reader.readRecord(index[i]);
    c.check(s == 0, "large-read", "%s: record %zu of %zu at %lld: %d", what.c_str(), i, all.size(), (long long)index[i].fileOffset, s);
    c.check(static_cast<size_t>(reader.getRecordSize(static_cast<uint32_t>(i))) >= all[i].size(), "large-size", "%s: record %zu: getRecordSize says %d", what.c_str(), i, (int)reader.getRecordSize(static_cast<uint32_t>(i)));
  }
  c.check(player.seen == all.size(), "large-read", "%s: %zu of %zu records were read", what.c_str(), player.seen, all.size());
  c.maxi("file_offset", index.back().fileOffset);
  // the cached index holds the same
  string cache = c.file("cache");
  if (FileDetailsCache::write(cache, reader.getStreams(), reader.getTags(), {}, index, true) == 0) {
    set<StreamId> ids;
    map<string, string> tags;
    map<StreamId, StreamTags> streamTags;
    vector<IndexRecord::RecordInfo> back;
    bool has = false;
    c.check(FileDetailsCache::read(cache, ids, tags, streamTags, back, has) == 0 && back == index, "large-cache", "%s", what.c_str());
  }
}

void recording(Case& c) {
  auto& r = c.rng;
  gDense = 0;
  size_t nStreams = 1 + r.below(3);
  vector<unique_ptr<HugeStream>> streams;
  RecordFileWriter writer;
  for (size_t i = 0; i < nStreams; i++) {
    streams.emplace_back(new HugeStream(r.pick({RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2})));
    writer.addRecordable(streams.back().get());
  }
  writer.setWriteFileHandler(make_unique<SparseFile>());
  bool chunked = r.chance(0.4);
  uint64_t chunkMB = chunked ? r.pick({1500, 2047, 2048, 2049, 4095, 4096, 5000}) : 0;
  writer.setMaxChunkSizeMB(chunkMB);
  string path = c.file("large.vrs");
  int s = writer.createFileAsync(path);
  if (!c.check(s == 0, "large-create", "createFileAsync: %d", s)) {
    return;
  }
  vector<Huge> all;
  size_t n = 3 + r.below(10);
  double ts = 1;
  bool waits = r.chance(0.5);
  uint64_t total = 0;
  for (size_t k = 0; k < n; k++) {
    Huge h;
    size_t i = r.below(nStreams);
    h.id = streams[i]->getStreamId();
    h.type = r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::STATE});
    h.ts = ts += 0.1 + r.unit();
    h.ver = static_cast<uint32_t>(r.below(5));
    h.head = randomBytes(r, 1 + r.below(200));
    h.tail = randomBytes(r, 1 + r.below(200));
    switch (r.below(5)) {
      case 0:
        h.hole = r.below(1000);
        break;
      case 1: // up to or just past a limit
        h.hole = (total < (2ull << 30) ? (2ull << 30) : (4ull << 30)) - min<uint64_t>(total, 2ull << 30) % (2ull << 30);
        h.hole = min<uint64_t>(h.hole, 3ull << 30);
        h.hole -= min<uint64_t>(h.hole, r.below(1000));
        break;
      case 2:
        h.hole = (0xffffffffull - 500) - r.below(1 << 20); // nearly the largest a record can be
        break;
      default:
        h.hole = r.below(1500ull << 20);
    }
    total += h.size();
    streams[i]->add(h);
    all.push_back(std::move(h));
    if (waits) {
      writer.writeRecordsAsync(ts);
    }
  }
  s = writer.waitForFileClosed();
  if (gDense > kDenseLimit) {
    c.count("not_sparse");
    return;
  }
  string what = vh::sf("%zu records, %llu bytes, chunks of %llu MB", n, (unsigned long long)total, (unsigned long long)chunkMB);
  if (!c.check(s == 0, "large-close", "%s: %d", what.c_str(), s)) {
    return;
  }
  uint64_t stored = 0;
  size_t files = 0;
  for (auto& e : filesystem::directory_iterator(c.tmp)) {
    if (e.path().filename().string().find("large.vrs") == 0) {
      stored += e.file_size();
      files++;
    }
  }
  c.check(stored > total, "large-stored", "%s: %llu bytes stored in %zu files", what.c_str(), (unsigned long long)stored, files);
  if (chunked) {
    c.count("chunk_files", static_cast<int64_t>(files));
  }
  checkRecording(c, path, all, what);
  if (c.failures == 0 && r.chance(0.7)) {
    // without its index: it has to be made again, from record headers far apart
    int fd = open(path.c_str(), O_RDWR);
    if (fd < 0) { // chunk names
      return;
    }
    FileFormat::FileHeader header;
    bool ok = pread(fd, &header, sizeof(header), 0) == sizeof(header);
    const int64_t indexAt = header.indexRecordOffset;
    header.indexRecordOffset = 0;
    ok = ok && pwrite(fd, &header, sizeof(header), 0) == sizeof(header);
    close(fd);
    c.check(ok, "large-header", "can't edit the file header");
    checkRecording(c, path, all, what + ", index missing");
    c.count("reindexed");
    if (files == 1 && c.failures == 0 && all.back().size() > 1 && all.size() > 1 && r.chance(0.6)) {
      // its end missing, too, and the index made again in place
      error_code e;
      uint64_t end = filesystem::file_size(path, e);
      if (static_cast<uint64_t>(indexAt) > total) { // the index is behind the records
        end = static_cast<uint64_t>(indexAt);
      }
      filesystem::resize_file(path, end - 1 - r.below(all.back().size() - 1), e);
      all.pop_back();
      {
        RecordFileReader fix;
        s = fix.openFile(path, true);
        c.check(s == 0, "large-repair", "%s: %d", what.c_str(), s);
      }
      checkRecording(c, path, all, what + ", repaired");
      RecordFileReader again;
      c.check(again.openFile(path) == 0 && again.hasIndex(), "large-repair", "%s: no index after the repair", what.c_str());
      struct stat before{}, after{};
      stat(path.c_str(), &before);
      RecordFileReader more;
      c.check(more.openFile(path, true) == 0 && stat(path.c_str(), &after) == 0 && before.st_size == after.st_size, "large-repair", "%s: repaired again, %lld bytes instead of %lld", what.c_str(),
              (long long)after.st_size, (long long)before.st_size);
      c.count("repaired");
    }
  }
  c.count("recordings");
  c.count("records", static_cast<int64_t>(all.size()));
  c.count("over_4GB", total > (4ull << 30));
  c.signature(what);
  c.sample(what + ": all found");
}

// what's at a position: the bytes written there, zeros otherwise
struct Sparse {
  map<uint64_t, uint8_t> bytes;
  uint64_t size{};
  void put(uint64_t at, const Bytes& b) {
    for (size_t i = 0; i < b.size(); i++) {
      bytes[at + i] = b[i];
    }
    size = max<uint64_t>(size, at + b.size());
  }
  Bytes get(uint64_t at, size_t n) const {
    Bytes b(n);
    for (auto it = bytes.lower_bound(at); it != bytes.end() && it->first < at + n; ++it) {
      b[it->first - at] = it->second;
    }
    return b;
  }
};

void chunks(Case& c) {
  auto& r = c.rng;
  Sparse model;
  size_t n = 1 + r.below(4);
  FileSpec spec;
  vector<uint64_t> limits;
  for (size_t k = 0; k < n; k++) {
    uint64_t base = limits.empty() ? 0 : limits.back();
    string path = c.file("chunk" + to_string(k));
    uint64_t size = r.pick<uint64_t>({1ull << 31, 1ull << 32, (1ull << 32) + 7, 5ull << 30, 100}) + r.below(3000) - r.below(50);
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    bool ok = fd >= 0 && ftruncate(fd, static_cast<off_t>(size)) == 0;
    for (size_t i = 0; i < 20 && ok; i++) {
      Bytes b = randomBytes(r, 1 + r.below(40));
      uint64_t at = r.chance(0.4) ? r.below(50) : r.chance(0.5) ? size - b.size() - r.below(20) : r.below(size - b.size());
      at = min<uint64_t>(at, size - b.size());
      ok = pwrite(fd, b.data(), b.size(), static_cast<off_t>(at)) == static_cast<ssize_t>(b.size());
      model.put(base + at, b);
    }
    close(fd);
    if (!ok) {
      c.count("no_sparse_files");
      return;
    }
    limits.push_back(base + size);
    spec.chunks.push_back(path);
  }
  const uint64_t total = limits.back();
  DiskFile file;
  int s = file.openSpec(spec);
  if (!c.check(s == 0, "large-open", "openSpec: %d", s)) {
    return;
  }
  c.check(static_cast<uint64_t>(file.getTotalSize()) == total, "large-total", "%lld, not %llu", (long long)file.getTotalSize(), (unsigned long long)total);
  bool updates = r.chance(0.5);
  if (updates) {
    s = file.reopenForUpdates();
    c.check(s == 0, "large-reopen", "%d", s);
  }
  string steps;
  for (size_t k = 0; k < 60 && c.failures == 0; k++) {
    uint64_t at = static_cast<uint64_t>(file.getPos());
    uint64_t to = r.chance(0.4) ? r.below(total) : r.chance(0.6) ? r.pick(limits) - min<uint64_t>(r.below(60), r.pick(limits) / 2) : model.bytes.empty() ? 0 : [&] {
      auto it = model.bytes.lower_bound(r.below(total));
      return it == model.bytes.end() ? total - 1 : it->first - min<uint64_t>(it->first, r.below(8));
    }();
    to = min<uint64_t>(to, total);
    if (to >= at && r.chance(0.4)) {
      s = file.skipForward(static_cast<int64_t>(to - at));
      steps += vh::sf("skip(%llu) ", (unsigned long long)(to - at));
    } else {
      s = file.setPos(static_cast<int64_t>(to));
      steps += vh::sf("setPos(%llu) ", (unsigned long long)to);
    }
    c.check(s == 0 && static_cast<uint64_t>(file.getPos()) == to, "large-seek", "%s: %d, at %lld", steps.c_str(), s, (long long)file.getPos());
    size_t len = 1 + r.below(60);
    if (updates && r.chance(0.3) && to + len <= total) {
      Bytes b = randomBytes(r, len);
      // overwriting stays in a chunk
      uint64_t limit = *upper_bound(limits.begin(), limits.end(), to == total ? to - 1 : to);
      if (to + len <= limit) {
        s = file.overwrite(b.data(), b.size());
        c.check(s == 0, "large-overwrite", "%s overwrite(%zu): %d", steps.c_str(), len, s);
        model.put(to, b);
        steps += vh::sf("overwrite(%zu) ", len);
        file.setPos(static_cast<int64_t>(to));
        c.count("overwrites");
      }
    }
    Bytes got(len, 0xA7);
    s = file.read(got.data(), len);
    size_t can = static_cast<size_t>(min<uint64_t>(len, total - to));
    steps += vh::sf("read(%zu) ", len);
    c.check((s == 0) == (can == len) && file.getLastRWSize() == can, "large-read", "%s: %d, %zu of %zu bytes", steps.c_str(), s, file.getLastRWSize(), can);
    got.resize(can);
    c.check(got == model.get(to, can), "large-content", "%s: other bytes at %llu", steps.c_str(), (unsigned long long)to);
    c.count("reads");
    c.maxi("position", static_cast<int64_t>(to));
    if (can < len) {
      file.setPos(0);
    }
  }
  c.signature(steps);
}

void async(Case& c) {
  auto& r = c.rng;
  FileSpec spec;
  spec.fileHandlerName = "asyncdiskfile";
  string path = c.file("async");
  spec.chunks = {path};
  spec.extras["ioengine"] = r.pick({"sync", "psync", "aio"});
  spec.extras["buffer_size"] = r.pick({"4096", "8192", "65536"});
  spec.extras["direct"] = "false";
  AsyncDiskFile file;
  int s = file.create(path, spec.extras);
  if (!c.check(s == 0, "large-create", "%d", s)) {
    return;
  }
  Sparse model;
  string steps = spec.extras["ioengine"] + " ";
  uint64_t pos = 0;
  for (size_t k = 0; k < 12 && c.failures == 0; k++) {
    if (r.chance(0.6)) {
      pos = r.pick<uint64_t>({1ull << 31, 1ull << 32, 3ull << 32, 100000}) + r.below(20000) - r.below(20000);
      s = file.setPos(static_cast<int64_t>(pos));
      steps += vh::sf("setPos(%llu) ", (unsigned long long)pos);
      c.check(s == 0 && static_cast<uint64_t>(file.getPos()) == pos, "large-seek", "%s: %d, at %lld", steps.c_str(), s, (long long)file.getPos());
    }
    Bytes b = randomBytes(r, 1 + r.skewed(20000));
    s = file.write(b.data(), b.size());
    steps += vh::sf("write(%zu) ", b.size());
    c.check(s == 0, "large-write", "%s: %d", steps.c_str(), s);
    model.put(pos, b);
    pos += b.size();
    c.check(static_cast<uint64_t>(file.getPos()) == pos, "large-pos", "%s: at %lld", steps.c_str(), (long long)file.getPos());
  }
  s = file.close();
  c.check(s == 0, "large-close", "%s: %d", steps.c_str(), s);
  int fd = open(path.c_str(), O_RDONLY);
  struct stat st{};
  c.check(fd >= 0 && fstat(fd, &st) == 0 && static_cast<uint64_t>(st.st_size) == model.size, "large-size", "%s: %lld bytes instead of %llu", steps.c_str(), (long long)st.st_size, (unsigned long long)model.size);
  auto it = model.bytes.begin();
  while (it != model.bytes.end() && c.failures == 0) {
    uint64_t from = it->first, to = from;
    while (it != model.bytes.end() && it->first == to && to - from < 50000) {
      ++it, ++to;
    }
    Bytes got(to - from);
    ssize_t n = pread(fd, got.data(), got.size(), static_cast<off_t>(from));
    c.check(n == static_cast<ssize_t>(got.size()) && got == model.get(from, got.size()), "large-content", "%s: other bytes at %llu", steps.c_str(), (unsigned long long)from);
  }
  close(fd);
  c.maxi("position", static_cast<int64_t>(model.size));
  c.count("files_written");
  c.signature(steps);
}

} // namespace

static void runCase(Case& c) {
  if (!holesWork(c)) {
    return;
  }
  if (c.mode == "chunks") {
    chunks(c);
  } else if (c.mode == "async") {
    async(c);
  } else {
    recording(c);
  }
}

VH_MAIN()
