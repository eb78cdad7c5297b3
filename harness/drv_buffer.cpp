// C18: what happens to records that wait in memory: random histories of create, purge, collect, enable/disable, record
// and write operations, against a model of every stream's queue. What ends up in each file is compared record by
// record, and in the order written.
// WITH: vrsgen perturb
#include "perturb.h"
#include "vrsgen.h"

#include <atomic>
#include <chrono>
#include <cmath>
#include <memory>
#include <thread>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;
using vh::sf;

namespace {

// tells when its data was written, or let go of without being written
class Direct : public DirectWriteRecordData {
 public:
  Direct(Bytes b, atomic<int>* written, atomic<int>* gone) : bytes_{std::move(b)}, written_{written}, gone_{gone} {}
  ~Direct() override {
    ++*gone_;
  }
  size_t getDataSize() const override {
    return bytes_.size();
  }
  int write(WriteFileHandler& file) const override {
    ++*written_;
    return file.write(bytes_.data(), bytes_.size());
  }

 private:
  Bytes bytes_;
  atomic<int>*written_, *gone_;
};

struct Queued {
  Rec rec;
  uint64_t order{}; // creation
};

struct World;

class Source : public Recordable {
 public:
  Source(RecordableTypeId t, World& w) : Recordable(t, "buffer/test"), world{w} {}
  const Record* createConfigurationRecord() override;
  const Record* createStateRecord() override;
  const Record* make(double ts, Record::Type type, const Bytes& b, size_t direct);
  World& world;
  vector<Queued> queue; // the model: what should be waiting, sorted
  bool autos{true};
};

struct World {
  explicit World(Case& k) : c{k} {}
  Case& c;
  uint32_t serial{0};
  double autoTs{};
  atomic<int> directWritten{0}, directGone{0};
  int directMade{0};
  vector<unique_ptr<Source>> sources;
};

const Record* Source::make(double ts, Record::Type type, const Bytes& b, size_t direct) {
  uint32_t ver = ++world.serial; // unique: identifies the record
  Queued q{Rec{getStreamId(), type, ts, ver, b}, ver};
  auto pos = upper_bound(queue.begin(), queue.end(), ts, [](double t, const Queued& x) { return t < x.rec.ts; });
  if (pos != queue.end()) {
    world.c.count("late_records");
  }
  queue.insert(pos, q);
  if (direct > 0 && direct <= b.size()) {
    size_t h = b.size() - direct;
    world.directMade++;
    return createUncompressedRecord(
        ts, type, ver, DataSource(DataSourceChunk(b.data(), h)),
        make_unique<Direct>(Bytes(b.begin() + static_cast<ptrdiff_t>(h), b.end()), &world.directWritten, &world.directGone));
  }
  return createRecord(ts, type, ver, DataSource(DataSourceChunk(b.data(), b.size())));
}
const Record* Source::createConfigurationRecord() {
  return autos ? make(world.autoTs, Record::Type::CONFIGURATION, Bytes(world.serial % 40, 0xC0), 0) : nullptr;
}
const Record* Source::createStateRecord() {
  return autos ? make(world.autoTs, Record::Type::STATE, Bytes(world.serial % 30, 0x50), 0) : nullptr;
}

// the documented rules
void modelPurge(Case& c, Source& s, double limit) {
  vector<Queued> kept;
  const Queued *state = nullptr, *config = nullptr;
  size_t old = 0;
  for (auto& q : s.queue) {
    if (q.rec.ts < limit) {
      old++;
      if (q.rec.type == Record::Type::STATE) {
        state = &q;
      } else if (q.rec.type == Record::Type::CONFIGURATION) {
        config = &q;
      }
    }
  }
  for (auto& q : s.queue) {
    if (!(q.rec.ts < limit) || &q == state || &q == config || q.rec.type == Record::Type::TAGS) {
      kept.push_back(q);
    }
  }
  c.count("purged", static_cast<int64_t>(s.queue.size() - kept.size()));
  c.count("kept_old", static_cast<int64_t>(old - (s.queue.size() - kept.size())));
  s.queue = kept;
}

using Batch = vector<Queued>; // in the order it should be written

Batch modelCollect(Case& c, World& w, double limit) {
  Batch b;
  for (auto& s : w.sources) {
    if (!s->isRecordableActive()) {
      modelPurge(c, *s, limit);
      c.count("inactive_collects");
      continue;
    }
    vector<Queued> rest;
    for (auto& q : s->queue) {
      (q.rec.ts < limit ? b : rest).push_back(q);
    }
    s->queue = rest;
  }
  stable_sort(b.begin(), b.end(), [](const Queued& x, const Queued& y) {
    return x.rec.ts < y.rec.ts || (x.rec.ts == y.rec.ts && (x.rec.id < y.rec.id || (x.rec.id == y.rec.id && x.order < y.order)));
  });
  c.count("collected", static_cast<int64_t>(b.size()));
  return b;
}

void verifyFile(Case& c, const string& path, const vector<Batch>& batches, const string& history) {
  RecordFileReader reader;
  int status = reader.openFile(path);
  if (status != 0) {
    c.failNow("open", "the file can't be opened: %d; history: %s", status, history.c_str());
  }
  vector<const IndexRecord::RecordInfo*> infos;
  for (auto& i : reader.getIndex()) {
    infos.push_back(&i);
  }
  sort(infos.begin(), infos.end(), [](auto* a, auto* b) { return a->fileOffset < b->fileOffset; });
  map<uint32_t, pair<size_t, Rec>> got; // by serial: position in the file
  for (size_t k = 0; k < infos.size(); k++) {
    Rec rec;
    int e = readOne(reader, *infos[k], rec);
    if (e != 0) {
      c.failNow("read", "record %zu can't be read: %d; history: %s", k, e, history.c_str());
    }
    if (!got.emplace(rec.ver, make_pair(k, rec)).second) {
      c.failNow("twice", "record %s was written twice; history: %s", rec.str().c_str(), history.c_str());
    }
  }
  size_t total = 0;
  for (auto& b : batches) {
    size_t last = 0;
    bool first = true;
    for (auto& q : b) {
      auto it = got.find(q.rec.ver);
      if (it == got.end()) {
        c.failNow("missing", "record %s is missing; history: %s", q.rec.str().c_str(), history.c_str());
      }
      if (!(it->second.second == q.rec)) {
        c.failNow("altered", "wrote %s, found %s; history: %s", q.rec.str().c_str(), it->second.second.str().c_str(), history.c_str());
      }
      if (!first && it->second.first < last) {
        c.failNow("order", "record %s was not written oldest first; history: %s", q.rec.str().c_str(), history.c_str());
      }
      last = it->second.first;
      first = false;
      total++;
    }
  }
  if (got.size() != total) {
    set<uint32_t> expected;
    for (auto& b : batches) {
      for (auto& q : b) {
        expected.insert(q.rec.ver);
      }
    }
    for (auto& g : got) {
      if (expected.count(g.first) == 0) {
        c.failNow("extra", "record %s should not be in the file; history: %s", g.second.second.str().c_str(), history.c_str());
      }
    }
  }
  c.count("files");
  c.count("records_verified", static_cast<int64_t>(total));
}

} // namespace

static void runCase(Case& c) {
  Rng& r = c.rng;
  World w(c);
  string history;
  size_t streams = static_cast<size_t>(r.range(1, 4));
  for (size_t i = 0; i < streams; i++) {
    w.sources.push_back(make_unique<Source>(randomType(r), w));
    Source& s = *w.sources.back();
    s.setCompression(randomPreset(r, false));
    s.autos = r.chance(0.7);
    if (r.chance(0.15)) {
      s.setRecordableIsActive(false);
    }
  }
  double clock = r.pick({0.0, 100.0, -50.0, 1e9});
  double grain = r.pick({1.0, 1.0, 0.25, 1e-6});
  const bool autoPurge = r.chance(0.08);
  atomic<double> purgeLimit{-1e300};
  atomic<int> purgeCalls{0};
  {
    RecordFileWriter writer;
    for (auto& s : w.sources) {
      writer.addRecordable(s.get());
    }
    if (r.chance(0.3)) {
      writer.setCompressionThreadPoolSize(static_cast<size_t>(r.range(0, 3)));
    }
    if (r.chance(0.3)) {
      perturb::start(r.next(), 100, 100);
    }
    vector<double> seen; // recent timestamps, for ties
    auto pickTs = [&]() {
      unsigned how = static_cast<unsigned>(r.below(10));
      double t;
      if (how < 2 && !seen.empty()) {
        t = seen[seen.size() - 1 - r.below(min<size_t>(seen.size(), 20))];
      } else if (how < 4) {
        t = clock - static_cast<double>(r.below(12)) * grain; // late
      } else {
        t = clock;
        clock += static_cast<double>(r.below(4)) * grain;
      }
      seen.push_back(t);
      return t;
    };
    auto pickLimit = [&]() {
      if (!seen.empty() && r.chance(0.5)) {
        double t = r.pick(seen);
        unsigned how = static_cast<unsigned>(r.below(4));
        return how == 0 ? nextafter(t, 1e300) : how == 1 ? nextafter(t, -1e300) : t;
      }
      return r.chance(0.1) ? Record::kMaxTimestamp : clock + (static_cast<double>(r.below(20)) - 14) * grain;
    };
    auto waitPurge = [&]() {
      // two more calls: a purge with the current limit is complete
      int start = purgeCalls;
      auto end = chrono::steady_clock::now() + chrono::seconds(20);
      while (purgeCalls < start + 3) {
        if (chrono::steady_clock::now() > end) {
          c.failNow("autopurge-stopped", "records are no longer purged automatically; history: %s", history.c_str());
        }
        this_thread::sleep_for(chrono::microseconds(300));
      }
      for (auto& s : w.sources) {
        modelPurge(c, *s, purgeLimit);
      }
      c.count("auto_purges");
    };
    bool recording = false, purging = false;
    vector<Batch> batches;
    string path;
    int files = 0;
    auto finish = [&]() {
      history += "close ";
      if (r.chance(0.3)) {
        int e = writer.closeFileAsync();
        c.check(e == 0, "close", "closeFileAsync: %d", e);
      }
      batches.push_back(modelCollect(c, w, Record::kMaxTimestamp));
      int e = writer.waitForFileClosed();
      if (e != 0) {
        c.failNow("close", "waitForFileClosed: %d", e);
      }
      recording = false;
      verifyFile(c, path, batches, history);
      unlink(path.c_str());
      batches.clear();
    };
    size_t steps = static_cast<size_t>(r.range(8, r.chance(0.1) ? 300 : 80));
    size_t maxSize = r.pick<size_t>({0, 20, 300, 3000, 20000});
    for (size_t k = 0; k < steps; k++) {
      unsigned op = static_cast<unsigned>(r.below(40));
      if (op < 22) {
        size_t n = static_cast<size_t>(r.range(1, 6));
        for (size_t i = 0; i < n; i++) {
          Source& s = *w.sources[r.below(streams)];
          Bytes b = randomPayload(r, r.chance(0.2) ? r.pick<size_t>({0, 1, 100, 991, 992, 993, 1000}) : randomSize(r, maxSize));
          auto type = r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION, Record::Type::STATE,
                              Record::Type::CONFIGURATION, Record::Type::TAGS});
          size_t direct = r.chance(0.15) && !b.empty() ? static_cast<size_t>(r.range(1, static_cast<int64_t>(b.size()))) : 0;
          s.make(pickTs(), type, b, direct);
        }
        history += sf("add%zu ", n);
        c.count("created", static_cast<int64_t>(n));
        if (purging && !recording) {
          waitPurge();
        }
      } else if (op < 27 && !(purging && !recording)) {
        double limit = pickLimit();
        bool recycle = r.chance(0.7);
        history += sf("purge(%.17g) ", limit);
        for (auto& s : w.sources) {
          modelPurge(c, *s, limit);
        }
        recycle ? writer.purgeOldRecords(limit) : writer.purgeOldRecords(limit, false);
        c.count(recording ? "purges_recording" : "purges");
      } else if (op < 30) {
        Source& s = *w.sources[r.below(streams)];
        s.setRecordableIsActive(!s.isRecordableActive());
        history += "toggle ";
        c.count("toggles");
      } else if (op < 35 && recording) {
        double limit = pickLimit();
        history += sf("write(%.17g) ", limit);
        batches.push_back(modelCollect(c, w, limit));
        int e = writer.writeRecordsAsync(limit);
        if (e != 0) {
          c.failNow("write", "writeRecordsAsync: %d", e);
        }
        c.count("writes");
      } else if (op == 35 && recording) {
        finish();
        if (purging) {
          waitPurge();
        }
      } else if (op < 38 && !recording) {
        path = c.file(sf("f%d.vrs", files++));
        if (purging) {
          // the purge in progress, if any, must not find more to purge
          clock = max(clock, purgeLimit.load()) + 20 * grain;
          seen.clear();
        }
        w.autoTs = clock;
        seen.push_back(clock);
        history += "create ";
        int e = writer.createFileAsync(path);
        if (e != 0) {
          c.failNow("create", "createFileAsync: %d", e);
        }
        recording = true;
        c.count("recordings");
        if (purging && r.chance(0.7)) {
          // purging is suspended now: once a purge in progress is over, old records must stay
          int calls = purgeCalls;
          this_thread::sleep_for(chrono::milliseconds(20));
          c.check(purgeCalls <= calls + 1, "autopurge-recording", "records are purged automatically while recording; history: %s", history.c_str());
          c.count("suspended_purges");
        }
      } else if (op == 38 && !recording) {
        if (purging) {
          purgeLimit = max(purgeLimit.load(), clock - 1000 * grain);
        }
        path = c.file(sf("w%d.vrs", files++));
        history += "writeToFile ";
        batches.push_back(modelCollect(c, w, Record::kMaxTimestamp));
        int e = writer.writeToFile(path);
        if (e != 0) {
          c.failNow("writeToFile", "writeToFile: %d", e);
        }
        verifyFile(c, path, batches, history);
        unlink(path.c_str());
        batches.clear();
        c.count("written_at_once");
      } else if (op == 39 && autoPurge && !recording) {
        purgeLimit = max(purgeLimit.load(), clock - static_cast<double>(r.below(10)) * grain);
        history += sf("autoPurge(%g) ", purgeLimit.load());
        if (!purging) {
          purging = true;
          writer.autoPurgeRecords(
              [&]() {
                purgeCalls++;
                return purgeLimit.load();
              },
              0.0005);
        }
        waitPurge();
      }
    }
    if (recording) {
      finish();
      if (purging) {
        waitPurge();
      }
    }
    // whatever waits at the end
    if (r.chance(0.8)) {
      for (auto& s : w.sources) {
        s->setRecordableIsActive(true);
      }
      path = c.file("last.vrs");
      batches.push_back(modelCollect(c, w, Record::kMaxTimestamp));
      history += "last ";
      int e = writer.writeToFile(path);
      if (e != 0) {
        c.failNow("writeToFile", "writeToFile: %d", e);
      }
      verifyFile(c, path, batches, history);
    }
  }
  perturb::stop();
  w.sources.clear();
  c.check(w.directGone == w.directMade, "direct-leak", "%d of %d objects with data to write were not released", w.directMade - w.directGone.load(), w.directMade);
  c.count("direct_written", w.directWritten.load());
  c.signature(history);
  c.sample(history);
}
VH_MAIN()
