// C10: a record read in any series of pieces gives the bytes of a full read, amounts read and remaining add up, asking
// for too much is refused without touching anything. Mode "frames": compressed frames written and read in pieces.
// WITH: vrsgen plan
#include "plan.h"

#include <vrs/Compressor.h>
#include <vrs/Decompressor.h>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
// a buffer of exactly n bytes, with known content
struct Buf {
  explicit Buf(size_t n) : size{n}, p{new uint8_t[n]} {
    memset(p.get(), 0xA5, n);
  }
  bool untouched(size_t from = 0) const {
    for (size_t i = from; i < size; i++) {
      if (p[i] != 0xA5) {
        return false;
      }
    }
    return true;
  }
  size_t size;
  unique_ptr<uint8_t[]> p;
};

struct Player : StreamPlayer {
  Case& c;
  const Rec* expected{};
  string what; // the record, for messages
  bool whole{}; // read it fully, in one go
  bool damaged{}; // stored data is damaged: anything can be read, or an error
  bool called{}, offered{};
  bool declined{}, tooMuch{};
  function<void()> nested;
  int readCompleteCalls{};
  unique_ptr<Buf> b1, b2;
  size_t s1{}, s2{};
  vector<uint32_t> vec;

  explicit Player(Case& c_) : c{c_} {}

  void verifyBytes(const uint8_t* p, size_t at, size_t n, const char* how) {
    if (n > 0 && !damaged && memcmp(p, expected->data.data() + at, n) != 0) {
      size_t k = 0;
      while (p[k] == expected->data[at + k]) {
        k++;
      }
      c.failNow("bytes", "%s: %s of %zu bytes at %zu: byte %zu differs from the record", what.c_str(), how, n, at, k);
    }
  }

  bool processRecordHeader(const CurrentRecord& record, DataReference& ref) override {
    auto& r = c.rng;
    offered = true;
    if (!damaged && record.recordSize != expected->data.size()) {
      c.failNow("size", "%s: announced with %u bytes instead of %zu", what.c_str(), record.recordSize, expected->data.size());
    }
    size_t size = record.recordSize;
    if (nested && r.chance(0.2)) {
      nested();
    }
    if (whole) {
      s1 = size;
      s2 = 0;
    } else {
      declined = r.chance(0.08);
      s1 = r.chance(0.25) ? 0 : r.chance(0.2) ? size : r.below(size + 1);
      s2 = r.chance(0.4) ? 0 : r.chance(0.3) ? size - s1 : r.below(size - s1 + 1);
      tooMuch = !declined && r.chance(0.06);
      if (tooMuch) {
        (r.chance(0.5) ? s1 : s2) += size - s1 - s2 + 1 + r.skewed(5000);
      }
    }
    b1 = make_unique<Buf>(s1);
    b2 = make_unique<Buf>(s2);
    void* p1 = s1 == 0 && r.chance(0.5) ? nullptr : b1->p.get();
    void* p2 = s2 == 0 && r.chance(0.5) ? nullptr : b2->p.get();
    if (s2 == 0 && r.chance(0.3)) {
      ref = DataReference(p1, static_cast<uint32_t>(s1));
    } else {
      ref.useRawData(p1, static_cast<uint32_t>(s1), p2, static_cast<uint32_t>(s2));
    }
    return !declined;
  }

  void processRecord(const CurrentRecord& record, uint32_t readSize) override {
    auto& r = c.rng;
    called = true;
    if (declined || tooMuch) {
      c.failNow("unwanted", "%s: delivered though %s", what.c_str(), declined ? "it was declined" : "more than its size was requested");
    }
    if (readSize != s1 + s2) {
      c.failNow("header-read", "%s: %u bytes read instead of %zu + %zu", what.c_str(), readSize, s1, s2);
    }
    verifyBytes(b1->p.get(), 0, s1, "header read");
    verifyBytes(b2->p.get(), s1, s2, "second part of header read");
    c.count("header_reads");
    c.count("bytes", static_cast<int64_t>(s1 + s2));
    const size_t total = record.recordSize;
    size_t at = s1 + s2;
    auto& rd = *record.reader;
    uint32_t disk = rd.getUnreadDiskBytes();
    auto amounts = [&](const char* after) {
      if (rd.getUnreadBytes() != total - at) {
        c.failNow("remaining", "%s: after %s, %u bytes left instead of %zu - %zu", what.c_str(), after, rd.getUnreadBytes(), total, at);
      }
      uint32_t d = rd.getUnreadDiskBytes();
      if (d > disk) {
        c.failNow("disk-bytes", "%s: after %s, unread disk bytes went from %u to %u", what.c_str(), after, disk, d);
      }
      disk = d;
    };
    amounts("the header read");
    auto type = rd.getCompressionType();
    if (type == CompressionType::None && disk != total - at) {
      c.failNow("disk-bytes", "%s: %u bytes left on disk instead of %zu", what.c_str(), disk, total - at);
    }
    c.count("type:" + toString(type));
    if (nested && r.chance(0.4)) {
      nested();
    }
    if (whole) {
      return;
    }
    size_t steps = r.chance(0.1) ? 0 : 1 + r.below(12);
    size_t biggest = r.chance(0.2) ? 16 : r.chance(0.2) ? total : 1 + total / (1 + r.below(8));
    for (size_t i = 0; i < steps; i++) {
      size_t left = total - at;
      size_t n = r.chance(0.1) ? 0 : r.chance(0.15) ? left : min(left, r.below(biggest + 1));
      bool over = r.chance(0.08);
      if (over) {
        n = left + 1 + r.skewed(3000);
      }
      int st = 0;
      uint32_t got = 12345;
      const char* how = "";
      switch (r.below(3)) {
        case 0: {
          how = over ? "over-read" : "read";
          Buf b(n);
          st = rd.read(b.p.get(), n);
          got = static_cast<uint32_t>(st == 0 ? n : 0);
          if (st == 0 && !over) {
            verifyBytes(b.p.get(), at, n, how);
          } else if (over && !b.untouched()) {
            c.failNow("overread-writes", "%s: a refused read of %zu bytes when %zu are left writes to the buffer", what.c_str(), n, left);
          }
          break;
        }
        case 1: {
          how = over ? "over-read of vector" : "read of vector";
          if (!over) {
            n = n / 4 * 4;
          } else {
            n = (n + 3) / 4 * 4;
          }
          vec.assign(n / 4, 0xA5A5A5A5);
          st = rd.read(vec);
          got = static_cast<uint32_t>(vec.size() * 4);
          if (st == 0 && !over) {
            verifyBytes(reinterpret_cast<uint8_t*>(vec.data()), at, n, how);
          }
          break;
        }
        default: {
          how = over ? "scattered over-read" : "scattered read";
          size_t first = r.chance(0.2) ? 0 : r.chance(0.2) ? n : r.below(n + 1);
          Buf x(first), y(n - first);
          DataReference ref(first == 0 && r.chance(0.5) ? nullptr : x.p.get(), static_cast<uint32_t>(first), n == first && r.chance(0.5) ? nullptr : y.p.get(), static_cast<uint32_t>(n - first));
          st = rd.read(ref, got);
          if (st == 0 && !over) {
            verifyBytes(x.p.get(), at, first, how);
            verifyBytes(y.p.get(), at + first, n - first, how);
          } else if (over && !(x.untouched() && y.untouched())) {
            c.failNow("overread-writes", "%s: a refused scattered read of %zu bytes when %zu are left writes to the buffers", what.c_str(), n, left);
          }
        }
      }
      if (over) {
        if (st == 0 || got != 0) {
          c.failNow("overread", "%s: %s of %zu bytes when %zu are left -> %d, %u bytes", what.c_str(), how, n, left, st, got);
        }
        c.count("over_asks");
        amounts("a refused read");
        continue;
      }
      if (damaged && st != 0) {
        return;
      }
      if (st != 0 || got != n) {
        c.failNow("read-failed", "%s: %s of %zu bytes at %zu -> %d, %u bytes", what.c_str(), how, n, at, st, got);
      }
      at += n;
      c.count("pieces");
      c.count("bytes", static_cast<int64_t>(n));
      amounts(how);
      if (type != rd.getCompressionType()) {
        c.failNow("type", "%s: the compression type changed", what.c_str());
      }
      if (nested && r.chance(0.05)) {
        nested();
      }
    }
    c.count(at == total ? "records_read_completely" : "records_left");
  }
  int recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) override {
    readCompleteCalls++;
    return 0;
  }
};

string cutFile(Case& c, const string& path, const string& name) {
  auto& r = c.rng;
  auto bytes = vh::slurp(path);
  string raw(bytes.begin(), bytes.end());
  set<size_t> cuts;
  for (size_t n = 1 + r.below(8); n > 0; n--) {
    cuts.insert(r.below(raw.size() + 1));
  }
  cuts.insert(raw.size());
  FileSpec spec;
  size_t from = 0;
  for (size_t to : cuts) {
    spec.chunks.push_back(c.file(vh::sf("%s_%zu", name.c_str(), spec.chunks.size())));
    vh::spew(spec.chunks.back(), raw.data() + from, to - from);
    from = to;
  }
  return spec.toJson();
}

struct Reader {
  RecordFileReader reader;
  Player player;
  vector<Rec>* expected{};
  set<size_t> damaged;
  string name;
  explicit Reader(Case& c) : player{c} {}
  void read(Case& c, size_t k, bool whole) {
    auto& info = reader.getIndex()[k];
    const Rec& e = (*expected)[k];
    player.expected = &e;
    player.whole = whole;
    player.damaged = damaged.count(k) > 0;
    player.called = player.offered = player.declined = player.tooMuch = false;
    player.readCompleteCalls = 0;
    player.what = vh::sf("%s #%zu %s", name.c_str(), k, e.str().c_str());
    int st = reader.readRecord(info, &player);
    if (player.damaged) {
      c.count(st ? "damaged_refused" : "damaged_read");
      return;
    }
    if (!player.offered) {
      c.failNow("not-offered", "%s: readRecord -> %d without processRecordHeader", player.what.c_str(), st);
    }
    if (st != 0) {
      c.failNow("record-failed", "%s: readRecord -> %d", player.what.c_str(), st);
    }
    if (!player.called && !player.declined && !player.tooMuch) {
      c.failNow("not-delivered", "%s: not delivered", player.what.c_str());
    }
    if (player.readCompleteCalls != (player.called ? 1 : 0)) {
      c.failNow("complete", "%s: recordReadComplete called %d times", player.what.c_str(), player.readCompleteCalls);
    }
    if (player.tooMuch && !(player.b1->untouched() && player.b2->untouched())) {
      c.failNow("overread-writes", "%s: a request for more than the record writes to the buffers", player.what.c_str());
    }
    c.count(player.declined ? "declined" : player.tooMuch ? "asked_too_much" : "delivered");
  }
};

void records(Case& c) {
  auto& r = c.rng;
  size_t nFiles = 1 + r.below(2);
  vector<Recording> recordings;
  vector<vector<Rec>> lists(nFiles);
  vector<string> paths, targets;
  vector<set<size_t>> damage(nFiles);
  int64_t biggest = 0;
  for (size_t f = 0; f < nFiles; f++) {
    PlanOptions o;
    o.maxStreams = 3;
    o.maxRecords = 12;
    o.maxSize = r.pick({100, 5000, 30000, 70000, 70000});
    o.engines = false;
    if (r.chance(0.08)) {
      o.maxSize = 4000000;
      o.maxRecords = 3;
    }
    Plan p = randomPlan(r, o);
    string path = c.file(vh::sf("f%zu.vrs", f));
    recordings.push_back(execute(p, path));
    auto& rec = recordings.back();
    if (rec.status != 0) {
      c.failNow("record-failed", "%s -> %d", rec.failedAt.c_str(), rec.status);
    }
    lists[f] = rec.expected;
    paths.push_back(path);
    Layout layout;
    string problem = layoutOf(path, layout);
    if (!problem.empty()) {
      c.failNow("layout", "%s", problem.c_str());
    }
    // the full read is what everything is compared with (C01 relates it to what was recorded)
    lists[f] = layout.content.recs;
    for (auto& x : lists[f]) {
      biggest = max(biggest, static_cast<int64_t>(x.data.size()));
    }
    if (r.chance(0.2) && !layout.records.empty()) {
      for (size_t n = 1 + r.below(3); n > 0; n--) {
        auto& d = layout.records[r.below(layout.records.size())];
        if (d.end - d.begin > 40) {
          auto raw = vh::slurp(d.path);
          raw[static_cast<size_t>(d.begin) + 32 + r.below(static_cast<size_t>(d.end - d.begin) - 32)] ^= static_cast<uint8_t>(1 + r.below(255));
          vh::spew(d.path, raw.data(), raw.size());
          damage[f].insert(d.rec);
        }
      }
    }
    targets.push_back(p.how == kSync && r.chance(0.4) ? cutFile(c, path, vh::sf("cut%zu", f)) : path);
  }
  size_t nReaders = 1 + r.below(3);
  vector<unique_ptr<Reader>> readers;
  for (size_t i = 0; i < nReaders; i++) {
    readers.emplace_back(new Reader(c));
    auto& rd = *readers.back();
    size_t f = r.below(nFiles);
    rd.expected = &lists[f];
    rd.damaged = damage[f];
    rd.name = vh::sf("reader %zu file %zu", i, f);
    int st = rd.reader.openFile(targets[f]);
    if (st != 0 || rd.reader.getIndex().size() != lists[f].size()) {
      c.failNow("open", "%s: %d, %zu records instead of %zu", targets[f].c_str(), st, rd.reader.getIndex().size(), lists[f].size());
    }
    if (targets[f] != paths[f]) {
      c.count("cut_files");
    }
    if (r.chance(0.2)) {
      rd.reader.setCachingStrategy(r.pick({CachingStrategy::Streaming, CachingStrategy::StreamingBidirectional, CachingStrategy::ReleaseAfterRead}));
    }
  }
  c.maxi("biggest_record", biggest);
  // readers can read in the callbacks of other readers
  int depth = 0;
  for (size_t i = 0; i + 1 < nReaders; i++) {
    readers[i]->player.nested = [&, i]() {
      auto& other = *readers[i + 1];
      if (!other.expected->empty() && depth < 3) {
        depth++;
        other.read(c, r.below(other.expected->size()), r.chance(0.3));
        depth--;
        c.count("nested_reads");
      }
    };
  }
  size_t ops = 10 + r.below(40);
  size_t total = 0;
  for (size_t i = 0; i < ops && total < 20000000; i++) {
    auto& rd = *readers[r.below(nReaders)];
    if (rd.expected->empty()) {
      continue;
    }
    size_t k = r.below(rd.expected->size());
    total += (*rd.expected)[k].data.size();
    rd.read(c, k, r.chance(0.15));
  }
  // and everything can still be read whole, in order and backwards
  auto& last = *readers[0];
  for (size_t k = 0; k < last.expected->size(); k++) {
    last.read(c, k, true);
  }
  if (r.chance(0.3)) {
    for (size_t k = last.expected->size(); k > 0; k--) {
      last.read(c, k - 1, false);
    }
  }
  c.signature(vh::sf("%zu %zu %zu %lld", nReaders, lists[0].size(), total, static_cast<long long>(biggest)));
}

// compressed frames: any pieces in, exact content out, within the amount allowed to be read
void frames(Case& c) {
  auto& r = c.rng;
  string path = c.file("frames");
  DiskFile file;
  if (file.create(path) != 0) {
    c.failNow("create", "can't create");
  }
  Compressor compressor;
  struct Frame {
    Bytes data;
    size_t at, end;
  };
  vector<Frame> all;
  size_t n = 1 + r.below(5);
  string prefix(r.below(20), 'p');
  file.write(prefix.data(), prefix.size());
  for (size_t i = 0; i < n; i++) {
    Frame f;
    f.data = randomPayload(r, r.chance(0.03) ? r.below(3000000) : r.chance(0.1) ? 0 : randomSize(r, 100000));
    f.at = static_cast<size_t>(file.getPos());
    auto preset = static_cast<CompressionPreset>(static_cast<int>(CompressionPreset::ZstdFaster) + static_cast<int>(r.below(4)));
    uint32_t size = 777;
    int st = compressor.startFrame(f.data.size(), preset, size);
    if (st != 0 || size != 0) {
      c.failNow("start", "startFrame(%zu) -> %d, size %u", f.data.size(), st, size);
    }
    size_t done = 0;
    size_t piece = 1 + (f.data.size() < 2000 && r.chance(0.3) ? 0 : r.below(f.data.size() + 1));
    size_t limit = r.chance(0.2) ? 1 + r.below(f.data.size() + 20) : 0;
    while (done < f.data.size() && st == 0) {
      size_t k = min(f.data.size() - done, r.chance(0.1) ? 0 : piece);
      st = compressor.addFrameData(file, f.data.data() + done, k, size, limit);
      done += k;
      if (st == 0 && static_cast<size_t>(file.getPos()) != f.at + size) {
        c.failNow("frame-size", "after addFrameData, %u bytes reported and %lld written", size, static_cast<long long>(file.getPos()) - static_cast<long long>(f.at));
      }
    }
    st = st ? st : compressor.endFrame(file, size, limit);
    size_t written = static_cast<size_t>(file.getPos()) - f.at;
    if (limit == 0 && st != 0) {
      c.failNow("frame-failed", "frame of %zu bytes -> %d", f.data.size(), st);
    }
    if (limit > 0 && written > limit) {
      c.failNow("frame-limit", "frame of %zu bytes limited to %zu: %zu bytes written (status %d)", f.data.size(), limit, written, st);
    }
    if (st == 0 && size != written) {
      c.failNow("frame-size", "%u bytes reported and %zu written", size, written);
    }
    if (st != 0) {
      c.count("frames_over_limit");
      // same frame again, without a limit
      file.setPos(static_cast<int64_t>(f.at));
      file.truncate();
      i--;
      continue;
    }
    f.end = f.at + written;
    all.push_back(f);
    c.count("frames");
  }
  string suffix = r.chance(0.5) ? string() : string(1 + r.below(500), 's');
  file.write(suffix.data(), suffix.size());
  file.close();
  // read them back: all in sequence with one decompressor, or one by one
  Decompressor shared;
  if (file.open(path) != 0) {
    c.failNow("open", "can't open");
  }
  size_t budget = all.back().end - prefix.size();
  file.setPos(static_cast<int64_t>(prefix.size()));
  for (auto& f : all) {
    size_t size = 99999999;
    int st = shared.initFrame(file, size, budget);
    if (st != 0 || size != f.data.size()) {
      c.failNow("frame-init", "initFrame -> %d, %zu bytes instead of %zu", st, size, f.data.size());
    }
    Buf b(size);
    st = shared.readFrame(file, b.p.get(), size, budget);
    if (st != 0 || (size > 0 && memcmp(b.p.get(), f.data.data(), size) != 0)) {
      c.failNow("frame-bytes", "readFrame of %zu bytes -> %d%s", size, st, st == 0 ? ", other bytes" : "");
    }
  }
  if (budget != 0) {
    c.failNow("frame-budget", "%zu bytes not read", budget);
  }
  if (static_cast<size_t>(file.getPos()) != all.back().end) {
    c.failNow("frame-overrun", "reader at %lld instead of %zu", static_cast<long long>(file.getPos()), all.back().end);
  }
  // not allowed to read it all: an error
  auto& f = all[r.below(all.size())];
  size_t shortBudget = r.below(f.end - f.at);
  file.setPos(static_cast<int64_t>(f.at));
  Decompressor other;
  size_t size = 0;
  int st = other.initFrame(file, size, shortBudget);
  if (st == 0) {
    if (size != f.data.size()) {
      c.failNow("frame-init", "cut frame: %zu bytes instead of %zu", size, f.data.size());
    }
    Buf b(size);
    st = other.readFrame(file, b.p.get(), size, shortBudget);
    if (st == 0) {
      c.failNow("frame-cut", "a frame of %zu bytes cut short is read without error", size);
    }
  }
  if (static_cast<size_t>(file.getPos()) >= f.end) {
    c.failNow("frame-overrun", "reads past the amount allowed");
  }
  c.count("frames_cut");
  file.close();
  // whole buffers
  Bytes data = randomPayload(r, randomSize(r, 60000));
  auto preset = randomPreset(r, false);
  size_t head = r.pick({0, 0, 1, 32, 100});
  uint32_t packed = compressor.compress(data.data(), data.size(), preset, head);
  if (packed != 0) {
    if (packed >= data.size() + head) {
      c.failNow("compress-bigger", "compress of %zu bytes with %zu of header -> %u", data.size(), head, packed);
    }
    c.count("buffers");
  }
  c.signature(vh::sf("%zu %zu %u", all.size(), all.back().end, packed));
}
} // namespace

static void runCase(Case& c) {
  if (c.mode == "frames") {
    frames(c);
  } else {
    records(c);
  }
}
VH_MAIN()
