// C02: many threads create records, add and disable streams, while the writer collects, compresses and writes in the
// background. Runs under TSan with pauses inserted at lock operations; what ends up in the file is compared with what
// each thread created.
// WITH: vrsgen perturb
#include "perturb.h"
#include "vrsgen.h"

#include <chrono>
#include <pthread.h>
#include <thread>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {

class Direct : public DirectWriteRecordData {
 public:
  explicit Direct(Bytes b) : bytes_{std::move(b)} {}
  size_t getDataSize() const override {
    return bytes_.size();
  }
  int write(WriteFileHandler& file) const override {
    return file.write(bytes_.data(), bytes_.size());
  }

 private:
  Bytes bytes_;
};

struct Made {
  Rec rec;
  bool must{true};
};

class Source : public Recordable {
 public:
  Source(RecordableTypeId t, const string& flavor) : Recordable(t, flavor) {}
  const Record* createConfigurationRecord() override {
    return makeAuto(Record::Type::CONFIGURATION);
  }
  const Record* createStateRecord() override {
    return makeAuto(Record::Type::STATE);
  }
  const Record* makeAuto(Record::Type type) {
    lock_guard<mutex> lock(autoMutex);
    uint64_t tag[2] = {0xA0A0A0A0A0A0A0A0ULL, autoCount++};
    Bytes b(reinterpret_cast<uint8_t*>(tag), reinterpret_cast<uint8_t*>(tag) + sizeof(tag));
    autos.push_back(Rec{getStreamId(), type, autoTs, 1, b});
    return createRecord(autoTs, type, 1, DataSource(DataSourceChunk(b.data(), b.size())));
  }
  const Record* make(double ts, Record::Type type, uint32_t ver, const Bytes& b, size_t direct) {
    if (direct > 0 && direct < b.size()) {
      size_t h = b.size() - direct;
      return createUncompressedRecord(
          ts, type, ver, DataSource(DataSourceChunk(b.data(), h)),
          make_unique<Direct>(Bytes(b.begin() + static_cast<ptrdiff_t>(h), b.end())));
    }
    return createRecord(ts, type, ver, DataSource(DataSourceChunk(b.data(), b.size())));
  }
  mutex autoMutex;
  vector<Rec> autos; // protected by autoMutex
  uint64_t autoCount{};
  double autoTs{};
  bool late{}; // added while recording
  // the producers of this stream hold it while creating a record; taken by the thread which disables it
  mutex gate;
  bool toggled{}; // disabled at times without regard for what is queued: records may be missing
};

struct Producer {
  Source* source{};
  uint32_t id{};
  size_t count{};
  uint64_t seed{};
  size_t maxSize{};
  double directChance{};
  unsigned pauseEvery{};
  bool gated{};
  vector<Made> made;
};

uint64_t usNow() {
  return static_cast<uint64_t>(chrono::duration_cast<chrono::microseconds>(chrono::steady_clock::now().time_since_epoch()).count());
}

} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  string path = c.file("f.vrs");
  size_t nStreams = 1 + r.below(4), nLate = r.below(3);
  vector<unique_ptr<Source>> sources;
  static const RecordableTypeId kTypes[] = {RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::SlamImuData};
  for (size_t i = 0; i < nStreams + nLate; i++) {
    auto s = make_unique<Source>(kTypes[r.below(3)], r.chance(0.5) ? "flavor" : "");
    s->setCompression(r.pick({CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFast, CompressionPreset::ZstdLight}));
    s->late = i >= nStreams;
    if (r.chance(0.2)) {
      s->toggled = true;
    }
    if (r.chance(0.6)) {
      s->setTag("k", vh::sf("v%zu", i));
    }
    sources.push_back(std::move(s));
  }
  atomic<double> clock{0};
  bool purge = r.chance(0.2); // records are created and purged before the recording starts
  bool autoWrite = r.chance(0.5);
  int how = static_cast<int>(r.below(3)); // normal, split head, chunked
  size_t threads = r.pick({0, 0, 1, 2, 4});
  bool lateClose = r.chance(0.3); // closing while producers are still running
  unsigned perMille = static_cast<unsigned>(r.pick({0, 5, 30, 150}));
  bool twoFlushers = r.chance(0.3) && autoWrite;
  double window = r.pick({0.0, 0.01, 0.2});
  string config = vh::sf(
      "%zu+%zu streams threads=%zu auto=%d how=%d purge=%d lateClose=%d pauses=%u window=%g", nStreams, nLate, threads, autoWrite, how, purge, lateClose, perMille, window);

  vector<Producer> producers;
  bool heavy = r.chance(0.15);
  for (auto& s : sources) {
    size_t n = s->late ? 1 : 1 + r.below(3);
    for (size_t k = 0; k < n; k++) {
      Producer p;
      p.source = s.get();
      p.id = static_cast<uint32_t>(producers.size());
      p.count = r.below(heavy ? 1500 : 150);
      p.seed = r.next();
      p.maxSize = r.pick({100, 2000, 70000});
      if (heavy) {
        p.maxSize = min<size_t>(p.maxSize, 2000);
      }
      p.directChance = r.pick({0., 0., 0.3});
      p.pauseEvery = static_cast<unsigned>(r.pick({0, 3, 20}));
      p.gated = !s->toggled && r.chance(0.7);
      producers.push_back(std::move(p));
    }
  }
  set<Source*> cleanToggle; // disabled only when everything was collected
  for (auto& s : sources) {
    bool all = !s->toggled;
    for (auto& p : producers) {
      all = all && (p.source != s.get() || p.gated);
    }
    if (all && r.chance(0.4)) {
      cleanToggle.insert(s.get());
    }
  }
  perturb::start(c.seed * 1000003 + c.number, perMille, static_cast<unsigned>(r.pick({50, 300, 2000})), static_cast<unsigned>(r.pick({0, 0, 500})));

  // before the recording
  auto writer = make_unique<RecordFileWriter>();
  for (size_t i = 0; i < nStreams; i++) {
    writer->addRecordable(sources[i].get());
  }
  writer->trackBackgroundThreadQueueByteSize();
  writer->setCompressionThreadPoolSize(threads);
  atomic<int> created{0}; // threads the writer told us about
  bool callback = r.chance(0.5);
  atomic<int> badThread{0};
  if (callback) {
    writer->setInitCreatedThreadCallback([&](thread& t, ThreadRole, int) {
      created++;
      // the documented use: "set the threads priority, name, etc"
      if (t.get_id() != this_thread::get_id()) {
        badThread++;
      }
    });
  }
  mutex clockMutex;
  double preWindow = 5;
  if (purge) {
    writer->autoPurgeRecords([&clock, preWindow]() { return clock.load() - preWindow; }, 0.001);
    if (r.chance(0.5)) {
      writer->autoPurgeRecords([&clock, preWindow]() { return clock.load() - preWindow; }, 0.0005);
    }
  }
  atomic<bool> go{false}, stop{false};
  double clockAtStart = 0;
  auto produce = [&](Producer& p) {
    vh::Rng q(p.seed);
    while (!go.load()) {
      this_thread::yield();
    }
    for (size_t i = 0; i < p.count && !(lateClose && stop.load() && i > 20); i++) {
      Bytes b = randomPayload(q, 16 + q.skewed(p.maxSize));
      uint64_t tag[2] = {p.id, i};
      memcpy(b.data(), tag, sizeof(tag));
      size_t direct = q.chance(p.directChance) ? 1 + q.below(b.size() - 16 + 1) : 0;
      direct = min(direct, b.size() - 16);
      auto type = q.chance(0.9) ? Record::Type::DATA : Record::Type::STATE;
      uint32_t ver = 1 + static_cast<uint32_t>(q.below(3));
      double ts;
      {
        lock_guard<mutex> lock(clockMutex);
        ts = clock.load() + 0.001;
        clock.store(ts);
      }
      unique_lock<mutex> gate(p.source->gate, defer_lock);
      if (p.gated) {
        gate.lock();
      }
      bool active = p.source->isRecordableActive();
      bool stopping = stop.load();
      Rec rec{p.source->getStreamId(), type, ts, ver, b};
      p.source->make(ts, type, ver, b, direct);
      bool must = active && !stopping && !p.source->toggled;
      if (gate.owns_lock()) {
        gate.unlock();
      }
      p.made.push_back(Made{std::move(rec), must && !(stop.load())});
      if (p.pauseEvery && i % p.pauseEvery == 0) {
        usleep(static_cast<useconds_t>(q.below(300)));
      }
    }
  };
  vector<thread> pool;
  if (purge) {
    go = true;
    for (auto& p : producers) {
      if (!p.source->late) {
        pool.emplace_back([&]() { produce(p); });
      }
    }
    usleep(static_cast<useconds_t>(r.below(20000)));
    clockAtStart = clock.load();
  }
  size_t chunkMB = how == 2 ? 1 : 0;
  for (auto& s : sources) {
    s->autoTs = purge ? clock.load() : 0;
  }
  int status = how == 0 ? writer->createFileAsync(path) : how == 1 ? writer->createChunkedFile(path, 0) : writer->createChunkedFile(path, chunkMB);
  if (!c.check(status == 0, "create-failed", "%s: %d", config.c_str(), status)) {
    go = true;
    stop = true;
    for (auto& t : pool) {
      t.join();
    }
    perturb::stop();
    return;
  }
  if (autoWrite) {
    writer->autoWriteRecordsAsync([&clock, window]() { return clock.load() - window; }, r.pick({0.0005, 0.002, 0.01}));
  }
  if (!purge) {
    for (auto& p : producers) {
      if (!p.source->late) {
        pool.emplace_back([&]() { produce(p); });
      }
    }
    go = true;
  }
  // the control thread (this one): adds streams, disables and enables others, collects records
  size_t steps = 5 + r.below(30);
  size_t nextLate = nStreams;
  size_t toggles = 0, flushes = 0, errors = 0;
  for (size_t k = 0; k < steps; k++) {
    usleep(static_cast<useconds_t>(r.below(1500)));
    if (nextLate < sources.size() && r.chance(0.3)) {
      Source* s = sources[nextLate++].get();
      writer->addRecordable(s);
      for (auto& p : producers) {
        if (p.source == s) {
          pool.emplace_back([&]() { produce(p); });
        }
      }
    }
    if (!autoWrite || twoFlushers) {
      errors += writer->writeRecordsAsync(r.chance(0.3) ? Record::kMaxTimestamp : clock.load() - window) != 0;
      flushes++;
    }
    if (r.chance(0.4)) {
      Source* s = sources[r.below(sources.size())].get();
      bool known = false;
      for (size_t i = 0; i < nextLate; i++) {
        known = known || sources[i].get() == s;
      }
      if (known && s->toggled) {
        s->setRecordableIsActive(!s->isRecordableActive());
        toggles++;
      } else if (known && cleanToggle.count(s)) {
        lock_guard<mutex> gate(s->gate); // nobody creates records now
        if (s->isRecordableActive()) {
          errors += writer->writeRecordsAsync(Record::kMaxTimestamp) != 0; // collects everything
          s->setRecordableIsActive(false);
        } else {
          s->setRecordableIsActive(true);
        }
        toggles++;
      }
    }
    (void)writer->getBackgroundThreadQueueByteSize();
  }
  if (!lateClose) {
    for (auto& t : pool) {
      t.join();
    }
  }
  stop = true;
  if (r.chance(0.5)) {
    errors += writer->closeFileAsync() != 0;
    usleep(static_cast<useconds_t>(r.below(2000)));
  }
  uint64_t t0 = usNow();
  status = writer->waitForFileClosed();
  c.maxi("close_ms", static_cast<int64_t>((usNow() - t0) / 1000));
  uint64_t left = writer->getBackgroundThreadQueueByteSize();
  FileContent f = readFile(path); // right away: everything must be there
  if (lateClose) {
    for (auto& t : pool) {
      t.join();
    }
  }
  // maybe a second recording by the same writer: gets what was created too late for the first
  FileContent f2;
  bool second = r.chance(0.4);
  int status2 = 0;
  if (second) {
    string path2 = c.file("g.vrs");
    for (auto& s : sources) {
      s->setRecordableIsActive(true);
    }
    status2 = writer->createFileAsync(path2);
    if (status2 == 0) {
      status2 = writer->waitForFileClosed();
    }
    left += writer->getBackgroundThreadQueueByteSize();
    f2 = readFile(path2);
  }
  writer.reset();
  perturb::stop();
  c.check(status2 == 0 && (!second || f2.status == 0), "second-recording", "%s: %d", config.c_str(), status2);
  c.check(status == 0 && errors == 0, "status", "%s: %d, %zu errors", config.c_str(), status, errors);
  c.check(left == 0, "queue-not-empty", "%s: %llu bytes left", config.c_str(), (unsigned long long)left);
  c.check(badThread == 0, "thread-callback", "%s: %d callbacks were given another thread than the one running", config.c_str(), badThread.load());
  if (!c.check(f.status == 0 && f.anomalies.empty(), "unreadable", "%s: %d %s", config.c_str(), f.status, f.anomalies.empty() ? "" : f.anomalies[0].c_str())) {
    return;
  }
  c.check(f.hasIndex || f.recs.empty(), "no-index", "%s", config.c_str());
  // exactly once, unmodified
  map<pair<uint64_t, uint64_t>, size_t> seen;
  map<pair<StreamId, uint64_t>, size_t> seenAuto;
  set<StreamId> ids;
  size_t got = 0, missing = 0;
  map<StreamId, Source*> byId;
  for (auto& s : sources) {
    byId[s->getStreamId()] = s.get();
  }
  size_t firstCount = f.recs.size();
  f.recs.insert(f.recs.end(), f2.recs.begin(), f2.recs.end());
  f.readStatus.insert(f.readStatus.end(), f2.readStatus.begin(), f2.readStatus.end());
  for (size_t i = 0; i < f.recs.size(); i++) {
    Rec& rec = f.recs[i];
    if (f.readStatus[i] != 0) {
      c.fail("record-unreadable", "%s: %s: %d", config.c_str(), rec.str().c_str(), f.readStatus[i]);
      return;
    }
    if (rec.type == Record::Type::TAGS) {
      auto it = byId.find(rec.id);
      c.check(it != byId.end() && it->second->late, "unexpected-tags-record", "%s: %s", config.c_str(), rec.str().c_str());
      continue;
    }
    uint64_t tag[2]{};
    if (rec.data.size() < 16 || byId.count(rec.id) == 0) {
      c.fail("alien-record", "%s: %s", config.c_str(), rec.str().c_str());
      return;
    }
    memcpy(tag, rec.data.data(), sizeof(tag));
    if (tag[0] == 0xA0A0A0A0A0A0A0A0ULL) {
      auto& autos = byId[rec.id]->autos;
      if (!c.check(tag[1] < autos.size() && autos[tag[1]] == rec && seenAuto[{rec.id, tag[1]}]++ == 0, "auto-record-altered", "%s: %s", config.c_str(), rec.str().c_str())) {
        return;
      }
      continue;
    }
    if (!c.check(tag[0] < producers.size() && tag[1] < producers[tag[0]].made.size(), "alien-record", "%s: %s", config.c_str(), rec.str().c_str())) {
      return;
    }
    Made& m = producers[tag[0]].made[tag[1]];
    if (!c.check(m.rec == rec, "record-altered", "%s: %s instead of %s", config.c_str(), rec.str().c_str(), m.rec.str().c_str())) {
      return;
    }
    if (!c.check(seen[{tag[0], tag[1]}]++ == 0, "record-duplicated", "%s: %s", config.c_str(), rec.str().c_str())) {
      return;
    }
    if (i > 0 && i != firstCount) {
      c.check(f.recs[i - 1].ts <= rec.ts, "not-sorted", "%s: %s", config.c_str(), rec.str().c_str());
    }
    got++;
  }
  set<Source*> seenLate; // streams added to the writer
  for (size_t i = nStreams; i < nextLate; i++) {
    seenLate.insert(sources[i].get());
  }
  for (auto& p : producers) {
    for (size_t i = 0; i < p.made.size(); i++) {
      bool must = p.made[i].must || (second && !p.source->toggled && cleanToggle.count(p.source) == 0 && p.made.size() > 0 && (!p.source->late || seenLate.count(p.source)));
      if (purge && (p.made[i].rec.ts < clockAtStart - preWindow || !p.made[i].must)) {
        must = false;
      }
      if (must && seen.count({p.id, i}) == 0) {
        missing++;
        c.fail("record-lost", "%s: record %zu of %zu of thread %u, %s", config.c_str(), i, p.made.size(), p.id, p.made[i].rec.str().c_str());
        return;
      }
    }
  }
  for (size_t i = 0; i < nextLate; i++) {
    // stream and tags
    auto* s = sources[i].get();
    auto it = f.streamTags.find(s->getStreamId());
    if (!s->toggled && cleanToggle.count(s) == 0) {
      c.check(it != f.streamTags.end(), "stream-missing", "%s: %s", config.c_str(), s->getStreamId().getNumericName().c_str());
    }
    if (it != f.streamTags.end() && !s->toggled && cleanToggle.count(s) == 0) {
      auto& want = s->getStreamTags();
      string diff = diffTags(want.user, it->second.user) + diffTags(want.vrs, it->second.vrs);
      c.check(diff.empty(), "stream-tag", "%s: stream %zu: %s", config.c_str(), i, diff.c_str());
    }
  }
  c.count("records_checked", static_cast<int64_t>(got));
  c.count("toggles", static_cast<int64_t>(toggles));
  c.count("late_streams", static_cast<int64_t>(nextLate - nStreams));
  c.count("lock_operations", static_cast<int64_t>(perturb::lockOps()));
  c.count("pauses", static_cast<int64_t>(perturb::pauses()));
  c.count("auto_collect", autoWrite);
  c.count("flushes", static_cast<int64_t>(flushes));
  c.count("closed_while_producing", lateClose);
  c.count("purged_before", purge);
  c.count("second_recordings", second);
  c.count("records_in_second", static_cast<int64_t>(f2.recs.size()));
  c.count("compression_threads", callback ? max(0, created.load() - 1) : 0);
  c.signature(vh::sf("%016llx %zu", (unsigned long long)perturb::signature(), got));
  c.sample(config + vh::sf(": %zu records", got));
}

VH_MAIN()
