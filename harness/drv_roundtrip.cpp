// C01: what was recorded is what is read back. Random recordings through random writer configurations; the oracle is
// the creation log kept on the client side.
// WITH: vrsgen
#include "vrsgen.h"

#include <cfloat>
#include <thread>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {

double randomTs(vh::Rng& r, int flavor, double& last) {
  double t;
  switch (flavor) {
    case 0: // increasing
      t = last + r.unit();
      break;
    case 1: // increasing, many ties
      t = last + static_cast<double>(r.below(3)) * 0.5;
      break;
    case 2: // jittery, out of order
      t = last + r.unit() * 2 - 0.8;
      break;
    case 3: // few distinct values
      return static_cast<double>(r.range(-2, 3));
    default: { // extremes
      static const double xs[] = {0, -0.0, DBL_MIN, -DBL_MIN, 5e-324, 1e-9, -1e-9, 1e300, -1e300, -DBL_MAX, 4.5e15, 1e18, 1.7e9, 0.1};
      return r.chance(0.5) ? xs[r.below(sizeof(xs) / sizeof(xs[0]))] : (r.unit() - 0.5) * 1e6;
    }
  }
  last = t;
  return t;
}

struct ChunkListener : public NewChunkHandler {
  atomic<int>* count;
  atomic<int>* lastCount;
  ChunkListener(atomic<int>* c, atomic<int>* l) : count{c}, lastCount{l} {}
  void newChunk(const string& path, size_t index, bool isLast) override {
    (void)path;
    (void)index;
    (*count)++;
    if (isLast) {
      (*lastCount)++;
    }
  }
};

} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  const bool big = c.mode == "chunks";
  const bool many = c.mode == "many"; // the index is written and read by pieces of 100000 entries
  size_t nStreams = 1 + r.below(big ? 3 : 5);
  if (!big && r.chance(0.1)) {
    nStreams = 5 + r.below(15);
  }
  vector<unique_ptr<Stream>> streams;
  string sig;
  for (size_t i = 0; i < nStreams; i++) {
    string flavor = r.chance(0.5) ? randomText(r, 30) : "";
    RecordableTypeId type = r.chance(0.4) && !streams.empty() ? streams.back()->getRecordableTypeId() : randomType(r);
    if (isARecordableClass(type) && flavor.empty()) {
      flavor = "flavor/a";
    }
    streams.emplace_back(new Stream(type, flavor));
    auto& s = *streams.back();
    for (auto& t : randomTags(r, 5)) {
      s.setTag(t.first, t.second);
    }
    s.setCompression(randomPreset(r, !big));
    s.chunks = 1 + static_cast<uint32_t>(r.below(3));
    s.autoConfig = r.chance(0.8);
    s.autoState = r.chance(0.8);
    s.autoTs = r.chance(0.5) ? 0 : -1;
  }
  RecordFileWriter writer;
  map<string, string> tags = randomTags(r, 6);
  if (r.chance(0.5)) {
    writer.addTags(tags);
  } else {
    for (auto& t : tags) {
      writer.setTag(t.first, t.second);
    }
  }
  size_t threads = r.chance(0.5) ? 0 : (r.chance(0.2) ? static_cast<size_t>(RecordFileWriter::kMaxThreadPoolSizeForHW) : 1 + r.below(4));
  writer.setCompressionThreadPoolSize(threads);
  // 0: writeToFile, 1: async, 2: chunked file with split head, 3: async with max chunk size
  int how = big ? static_cast<int>(r.pick({2, 3})) : static_cast<int>(r.below(3));
  size_t chunkMB = big ? 1 : (r.chance(0.3) ? 1 : 0);
  string path = c.file(r.chance(0.2) ? "a file, with 'odd' name%20.vrs" : "f.vrs");
  string target = path;
  bool unsorted = false;
  int engine = 0;
  if (r.chance(0.3)) { // pick another storage backend or parameters through a uri
    FileSpec spec;
    spec.chunks = {path};
    if (r.chance(0.6)) {
      engine = 1;
      spec.fileHandlerName = "asyncdiskfile";
      static const char* engines[] = {"sync", "psync", "aio"};
      if (r.chance(0.8)) {
        spec.extras["ioengine"] = engines[r.below(3)];
      }
      if (r.chance(0.6)) {
        spec.extras["buffer_size"] = r.pick({"4096", "8192", "65536", "1048576"});
      }
      spec.extras["direct"] = r.chance(0.5) ? "true" : "false";
    } else {
      spec.fileHandlerName = "diskfile";
    }
    if (r.chance(0.3)) {
      spec.extras["sort_records"] = "false";
      unsorted = threads > 0;
    }
    target = spec.toJson();
  }
  bool prealloc = how == 1 && r.chance(0.35);
  uint64_t target_records = many ? r.pick({99990, 100000, 100001, 200003, 230000}) + r.below(10) : big ? 6 + r.below(30) : r.skewed(60) + (r.chance(0.1) ? r.below(1500) : 0);
  size_t maxSize = many ? 12 : big ? 600000 : (target_records > 200 ? 300 : (r.chance(0.15) ? 400000 : 5000));
  int tsFlavor = static_cast<int>(r.below(many ? 2 : 5));
  double lastTs = static_cast<double>(r.range(-5, 5));
  uint64_t directs = 0;
  auto addOne = [&](size_t k, double ts) {
    auto& s = *streams[k];
    static const Record::Type types[] = {Record::Type::DATA, Record::Type::DATA, Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION};
    Bytes data = randomPayload(r, randomSize(r, maxSize));
    size_t direct = r.chance(0.1) && !data.empty() ? 1 + r.below(data.size()) : 0;
    directs += direct > 0;
    s.add(ts, types[r.below(5)], static_cast<uint32_t>(r.chance(0.9) ? r.below(4) : r.next()), std::move(data), direct);
    if (r.chance(0.02)) {
      s.setCompression(randomPreset(r, false)); // applies to the records not written yet
    }
  };

  vector<bool> addedLate(nStreams, false);
  size_t lateFrom = nStreams > 1 && r.chance(0.3) ? 1 + r.below(nStreams) : nStreams;
  for (size_t i = 0; i < nStreams; i++) {
    if ((how == 1 || how == 2 || how == 3) && i >= lateFrom) {
      addedLate[i] = true;
      // streams added after the file was created get their automatic records at that time
    } else {
      writer.addRecordable(streams[i].get());
    }
  }
  if (r.chance(0.3)) {
    writer.trackBackgroundThreadQueueByteSize();
  }
  atomic<int> newChunks{0}, lastChunks{0};
  int status = 0;
  size_t before = how == 0 ? target_records : r.below(target_records / 2 + 1);
  for (size_t i = 0; i < before; i++) {
    size_t k = r.below(nStreams);
    if (!addedLate[k]) {
      addOne(k, randomTs(r, tsFlavor, lastTs));
    }
  }
  if (prealloc) {
    auto index = make_unique<deque<IndexRecord::DiskRecordInfo>>();
    // an estimate of the final index, right, too small, or too large
    size_t n = r.pick<size_t>({static_cast<size_t>(target_records), 1, static_cast<size_t>(target_records * 3 + 10)});
    for (size_t i = 0; i < n; i++) {
      index->push_back({static_cast<double>(i) * 0.1, static_cast<uint32_t>(100 + r.below(100)), streams[r.below(nStreams)]->getStreamId(), Record::Type::DATA});
    }
    writer.preallocateIndex(std::move(index));
  }
  bool lateRecord = false;
  size_t flushes = 0;
  if (how == 0) {
    status = writer.writeToFile(target);
    c.check(status == 0, "write-failed:sync", "writeToFile(%s) -> %d %s", target.c_str(), status, errorCodeToMessage(status).c_str());
  } else {
    if (how == 2) {
      status = writer.createChunkedFile(target, chunkMB, make_unique<ChunkListener>(&newChunks, &lastChunks));
    } else {
      status = writer.createFileAsync(target);
      if (how == 3) {
        writer.setMaxChunkSizeMB(chunkMB);
      }
    }
    c.check(status == 0, "create-failed", "create(%s) how=%d -> %d %s", target.c_str(), how, status, errorCodeToMessage(status).c_str());
    if (status != 0) {
      return;
    }
    c.check(writer.isWriting() || how == 2, "not-writing", "isWriting() false after creation");
    for (size_t i = 0; i < nStreams; i++) {
      if (addedLate[i]) {
        writer.addRecordable(streams[i].get());
        lateRecord = true;
      }
    }
    if (r.chance(0.2)) {
      writer.autoWriteRecordsAsync([&]() { return -1e9; }, 0.01);
    }
    double flushed = -DBL_MAX;
    for (size_t i = before; i < target_records; i++) {
      double t = randomTs(r, tsFlavor, lastTs);
      lateRecord = lateRecord || t <= flushed;
      addOne(r.below(nStreams), t);
      if (r.chance(0.1)) {
        flushed = max(flushed, lastTs);
        flushes++;
        int e = writer.writeRecordsAsync(r.chance(0.2) ? Record::kMaxTimestamp : lastTs);
        c.check(e == 0, "write-failed:async", "writeRecordsAsync -> %d", e);
      }
    }
    if (r.chance(0.3)) {
      status = writer.closeFileAsync();
      c.check(status == 0, "close-failed", "closeFileAsync -> %d", status);
    }
    status = writer.waitForFileClosed();
    c.check(status == 0, "close-failed", "waitForFileClosed -> %d %s", status, errorCodeToMessage(status).c_str());
  }
  c.check(!writer.isWriting(), "still-writing", "isWriting() true after the file was closed");
  c.check(writer.getBackgroundThreadQueueByteSize() == 0, "queue-not-empty", "%llu bytes left in the queue", (unsigned long long)writer.getBackgroundThreadQueueByteSize());
  if (status != 0) {
    return;
  }

  // --- read back
  vector<Rec> expected;
  set<StreamId> ids;
  map<StreamId, size_t> byId;
  for (size_t i = 0; i < nStreams; i++) {
    auto& s = *streams[i];
    expected.insert(expected.end(), s.log.begin(), s.log.end());
    if (!c.check(ids.insert(s.getStreamId()).second, "duplicate-stream-id", "%s used twice", s.getStreamId().getNumericName().c_str())) {
      return;
    }
    byId[s.getStreamId()] = i;
  }
  sortPlayback(expected);
  RecordFileReader reader;
  int open = reader.openFile(path);
  if (!c.check(open == 0, "open-failed", "openFile after a successful recording -> %d %s", open, errorCodeToMessage(open).c_str())) {
    return;
  }
  FileContent f;
  readContent(reader, f);
  // (an empty split recording is re-indexed at opening, which finds the same nothing)
  c.check(f.hasIndex || f.recs.empty(), "no-index", "the file has no index, how=%d prealloc=%d", how, prealloc);
  for (size_t i = 0; i < f.readStatus.size(); i++) {
    if (f.readStatus[i] != 0) {
      c.failNow("unreadable-record", "record %zu/%zu (%s): read error %d %s", i, f.recs.size(), f.recs[i].str().c_str(), f.readStatus[i], errorCodeToMessage(f.readStatus[i]).c_str());
    }
  }
  for (auto& a : f.anomalies) {
    c.fail("index-vs-record", "%s", a.c_str());
  }
  // tags records of streams added late are bookkeeping, not user records
  vector<Rec> got;
  for (auto& rec : f.recs) {
    if (rec.type != Record::Type::TAGS) {
      got.push_back(rec);
    } else {
      c.check(byId.count(rec.id) && addedLate[byId[rec.id]], "unexpected-tags-record", "%s", rec.str().c_str());
    }
  }
  for (size_t i = 1; i < f.recs.size(); i++) {
    if (f.recs[i].ts < f.recs[i - 1].ts) {
      c.failNow("not-sorted", "record %zu at %.17g after %.17g", i, f.recs[i].ts, f.recs[i - 1].ts);
    }
  }
  string diff = diffMultiset(expected, got);
  c.check(diff.empty(), "records-differ", "how=%d threads=%zu engine=%d prealloc=%d: %s", how, threads, engine, prealloc, diff.c_str());
  if (diff.empty() && !unsorted && !lateRecord) {
    diff = diffOrdered(expected, got);
    c.check(diff.empty(), "records-order", "how=%d threads=%zu: %s", how, threads, diff.c_str());
  }
  c.check(f.streams == ids, "streams-differ", "%zu streams written, %zu read", ids.size(), f.streams.size());
  diff = diffTags(tags, f.tags);
  c.check(diff.empty(), "file-tags-differ", "%s", diff.c_str());
  for (auto& s : streams) {
    auto id = s->getStreamId();
    diff = diffTags(s->getStreamTags().user, f.streamTags[id].user);
    c.check(diff.empty(), "stream-tags-differ:user", "%s: %s", id.getNumericName().c_str(), diff.c_str());
    diff = diffTags(s->getStreamTags().vrs, f.streamTags[id].vrs);
    c.check(diff.empty(), "stream-tags-differ:vrs", "%s: %s", id.getNumericName().c_str(), diff.c_str());
    c.check(reader.getFlavor(id) == s->getStreamFlavor(), "flavor-differs", "'%s' vs '%s'", reader.getFlavor(id).c_str(), s->getStreamFlavor().c_str());
    c.check(reader.getSerialNumber(id) == s->getSerialNumber(), "serial-differs", "%s", id.getNumericName().c_str());
    c.check(reader.getOriginalRecordableTypeName(id) == toString(s->getRecordableTypeId()), "type-name-differs", "%s", id.getNumericName().c_str());
  }
  // second way to read: play everything
  {
    Collector col;
    for (auto id : reader.getStreams()) {
      reader.setStreamPlayer(id, &col);
    }
    int e = reader.readAllRecords();
    c.check(e == 0, "read-all-failed", "readAllRecords -> %d", e);
    diff = diffOrdered(f.recs, col.recs);
    c.check(diff.empty(), "play-differs", "%s", diff.c_str());
  }
  // file layout promises: chunk files
  auto chunks = reader.getFileChunks();
  int64_t total = 0;
  for (auto& ch : chunks) {
    total += ch.second;
  }
  c.check(total == reader.getTotalSourceSize(), "total-size", "%lld vs %lld", (long long)total, (long long)reader.getTotalSourceSize());
  if (how == 2) {
    c.check(chunks.size() >= 2, "chunk-count", "a chunked file with a head file has %zu chunks", chunks.size());
    c.check(lastChunks == 1, "chunk-notify", "%d last chunk notifications", lastChunks.load());
  }
  if (how < 2 || (how == 2 && chunkMB == 0)) {
    c.check(chunks.size() == (how == 2 ? 2U : 1U), "chunk-count", "%zu chunks, how=%d", chunks.size(), how);
  }
  if (big) {
    // no chunk but the last may exceed the limit, unless a single record does
    for (size_t i = how == 2 ? 1 : 0; i + 1 < chunks.size(); i++) {
      c.check(chunks[i].second <= 1024 * 1024, "chunk-too-big", "chunk %zu of %zu has %lld bytes", i, chunks.size(), (long long)chunks[i].second);
    }
    c.count("chunks", static_cast<int64_t>(chunks.size()));
  }
  reader.closeFile();
  // the same writer records another file, with the same streams
  if (r.chance(0.2)) {
    string path2 = c.file("second.vrs");
    vector<size_t> mark;
    for (auto& s : streams) {
      mark.push_back(s->log.size());
    }
    int how2 = static_cast<int>(r.below(3));
    size_t n = r.below(20);
    maxSize = min<size_t>(maxSize, 5000);
    for (size_t i = 0; i < n; i++) {
      addOne(r.below(nStreams), randomTs(r, tsFlavor, lastTs));
    }
    if (how2 == 0) {
      status = writer.writeToFile(path2);
    } else {
      status = how2 == 1 ? writer.createFileAsync(path2) : writer.createChunkedFile(path2, 0);
      if (status == 0) {
        n = r.below(20);
        for (size_t i = 0; i < n; i++) {
          addOne(r.below(nStreams), randomTs(r, tsFlavor, lastTs));
        }
        status = writer.waitForFileClosed();
      }
    }
    c.check(status == 0, "second-write-failed", "how=%d then %d -> %d %s", how, how2, status, errorCodeToMessage(status).c_str());
    vector<Rec> expected2;
    for (size_t i = 0; i < nStreams; i++) {
      expected2.insert(expected2.end(), streams[i]->log.begin() + static_cast<ptrdiff_t>(mark[i]), streams[i]->log.end());
    }
    sortPlayback(expected2);
    FileContent f2 = readFile(path2);
    c.check(f2.status == 0, "second-open-failed", "how=%d then %d -> %d", how, how2, f2.status);
    c.check(f2.hasIndex || f2.recs.empty(), "second-no-index", "how=%d then %d", how, how2);
    diff = diffMultiset(expected2, f2.recs);
    c.check(diff.empty(), "second-records-differ", "how=%d prealloc=%d then %d: %s", how, prealloc, how2, diff.c_str());
    c.check(f2.streams == ids && diffTags(tags, f2.tags).empty(), "second-streams-differ", "how=%d then %d", how, how2);
    for (auto& s : streams) {
      diff = diffTags(s->getStreamTags().user, f2.streamTags[s->getStreamId()].user) + diffTags(s->getStreamTags().vrs, f2.streamTags[s->getStreamId()].vrs);
      c.check(diff.empty(), "second-tags-differ", "%s", diff.c_str());
    }
    c.count("second_recordings");
  }
  c.count("records", static_cast<int64_t>(got.size()));
  c.count("files");
  c.count("direct_writes", static_cast<int64_t>(directs));
  c.count("how:" + to_string(how));
  c.count("late_streams", static_cast<int64_t>(count(addedLate.begin(), addedLate.end(), true)));
  c.count("preallocated", prealloc);
  c.count("async_engine", engine);
  c.count("multi_thread", threads > 0);
  if (!got.empty()) {
    c.signature(vh::sf("%d %zu %d %d %zu %d %016llx", how, threads, engine, prealloc, nStreams, tsFlavor, (unsigned long long)vh::fnv(&got[0].ts, 8) ^ got.size()));
  }
  c.sample(vh::sf("%zu records in %zu streams, how=%d (0 sync,1 async,2 chunked+head,3 async+chunk limit) threads=%zu engine=%d prealloc=%d flushes=%zu: all found; first %s", got.size(), nStreams, how, threads, engine, prealloc, flushes, got.empty() ? "-" : got[0].str().c_str()));
}

VH_MAIN()
