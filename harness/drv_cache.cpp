// C20: file details saved in a cache and loaded back. The details API with generated details and damaged cache files,
// a file opened with and without help of a cache (through a handler pretending to be remote), including after read
// errors, cancellations and damage to the cache, and caches interrupted or failing while being written.
// WITH: vrsgen plan vio
#include "crash.h"
#include "plan.h"

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/ProgressLogger.h>

#include <sys/stat.h>

#include <atomic>
#include <cmath>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {

using Index = vector<IndexRecord::RecordInfo>;

struct Details {
  set<StreamId> streams;
  map<string, string> tags;
  map<StreamId, StreamTags> streamTags;
  Index index;
  bool hasIndex{};
};

bool sameDouble(double a, double b) {
  return memcmp(&a, &b, sizeof(a)) == 0;
}

string diffIndex(const Index& a, const Index& b) {
  for (size_t i = 0; i < min(a.size(), b.size()); i++) {
    if (!sameDouble(a[i].timestamp, b[i].timestamp) || a[i].fileOffset != b[i].fileOffset || a[i].streamId != b[i].streamId || a[i].recordType != b[i].recordType) {
      return vh::sf("record %zu of %zu: %g %lld %s %d != %g %lld %s %d", i, a.size(), a[i].timestamp, (long long)a[i].fileOffset, a[i].streamId.getNumericName().c_str(), (int)a[i].recordType, b[i].timestamp, (long long)b[i].fileOffset, b[i].streamId.getNumericName().c_str(), (int)b[i].recordType);
    }
  }
  return a.size() == b.size() ? "" : vh::sf("%zu != %zu records", a.size(), b.size());
}

string diff(const Details& a, const Details& b) {
  string d;
  if (a.streams != b.streams) {
    d += vh::sf("%zu != %zu streams; ", a.streams.size(), b.streams.size());
  }
  d += diffTags(a.tags, b.tags);
  for (auto& t : a.streamTags) {
    auto it = b.streamTags.find(t.first);
    if (it == b.streamTags.end()) {
      d += "missing tags of " + t.first.getNumericName();
    } else {
      d += diffTags(t.second.user, it->second.user) + diffTags(t.second.vrs, it->second.vrs);
    }
  }
  if (a.streamTags.size() != b.streamTags.size()) {
    d += vh::sf("tags of %zu != %zu streams; ", a.streamTags.size(), b.streamTags.size());
  }
  if (a.hasIndex != b.hasIndex) {
    d += "index flag; ";
  }
  return d + diffIndex(a.index, b.index);
}

Details randomDetails(Rng& r, bool big) {
  Details d;
  size_t n = r.chance(0.15) ? 0 : r.below(big ? 300 : 12);
  vector<StreamId> ids;
  for (size_t i = 0; i < n; i++) {
    auto type = r.chance(0.5) ? randomType(r) : static_cast<RecordableTypeId>(r.range(1, 65534));
    StreamId id(type, static_cast<uint16_t>(r.chance(0.7) ? 1 + r.below(5) : r.range(0, 65535)));
    d.streams.insert(id);
    ids.push_back(id);
  }
  d.tags = randomTags(r, big ? 60 : 6);
  if (big && r.chance(0.3)) {
    d.tags["huge"] = string(r.range(100000, 3000000), 'x') + randomText(r, 300);
  }
  for (auto id : d.streams) {
    if (r.chance(0.8)) {
      auto& t = d.streamTags[id];
      t.user = randomTags(r, 5);
      t.vrs = randomTags(r, 3);
      // what any file read back has
      t.vrs[Recordable::getSerialNumberTagName()] = vh::sf("%016llx", (unsigned long long)r.next());
      t.vrs[Recordable::getOriginalNameTagName()] = r.pick({"Camera", "a #b", "x", "Device #12x", ""});
    }
  }
  d.hasIndex = r.chance(0.5);
  size_t count = r.chance(0.15) ? r.below(2) : r.below(200);
  if (big) {
    count = r.pick({49999, 50000, 50001, 100000, 100001, 20000, 130000});
  }
  if (ids.empty()) {
    ids.push_back(StreamId(RecordableTypeId::UnitTest1, 7)); // an index may name unlisted streams
  }
  double ts = r.chance(0.2) ? -1e300 : static_cast<double>(r.below(1000));
  int64_t offset = static_cast<int64_t>(r.below(1000));
  for (size_t i = 0; i < count; i++) {
    switch (r.below(12)) {
      case 0:
        break;
      case 1:
        ts = r.pick({-0.0, 0.0, 1e-300, 1.7976931348623157e308, -1.7976931348623157e308, static_cast<double>(NAN), static_cast<double>(INFINITY)});
        break;
      default:
        ts = (std::isfinite(ts) && fabs(ts) < 1e12 ? ts : 0) + r.unit();
    }
    offset = r.chance(0.01) ? static_cast<int64_t>(r.next() >> (1 + r.below(40))) : (offset & 0xffffffffffffll) + static_cast<int64_t>(r.below(100000));
    d.index.emplace_back(ts, offset, r.pick(ids), r.pick({Record::Type::STATE, Record::Type::CONFIGURATION, Record::Type::DATA, Record::Type::DATA}));
  }
  return d;
}

int save(const string& path, const Details& d) {
  return FileDetailsCache::write(path, d.streams, d.tags, d.streamTags, d.index, d.hasIndex);
}

int load(const string& path, Details& d) {
  return FileDetailsCache::read(path, d.streams, d.tags, d.streamTags, d.index, d.hasIndex);
}

// a random damage to the bytes of a file; "" if it left them as they were
string damage(Rng& r, Bytes& b, const Bytes& other) {
  Bytes was = b;
  string what;
  size_t n = b.size();
  if (n == 0) {
    b = {1, 2, 3};
    return "3 bytes instead of none";
  }
  size_t at = r.chance(0.35) ? r.below(min<size_t>(n, 120)) : (r.chance(0.4) ? n - 1 - r.below(min<size_t>(n, 200)) : r.below(n));
  switch (r.below(10)) {
    case 0:
    case 1:
      b[at] ^= static_cast<uint8_t>(1 << r.below(8));
      what = vh::sf("bit flipped at %zu", at);
      break;
    case 2:
      b.resize(r.chance(0.3) ? n - 1 - r.below(min<size_t>(n, 30)) : at);
      what = vh::sf("truncated to %zu", b.size());
      break;
    case 3: {
      size_t k = 1 + r.below(40);
      for (size_t i = 0; i < k; i++) {
        b.push_back(static_cast<uint8_t>(r.next()));
      }
      what = vh::sf("%zu bytes appended", k);
      break;
    }
    case 4: {
      size_t k = min(n - at, 1 + r.below(600));
      fill(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + k), static_cast<uint8_t>(r.pick({0, 0, 255, 77})));
      what = vh::sf("%zu bytes overwritten at %zu", k, at);
      break;
    }
    case 5: { // extreme values where a count or size might be
      uint64_t v = r.pick<uint64_t>({0xffffffffull, 0x7fffffffull, 0xffffffffffffffffull, 0x10000000ull, 0, 1, 0x05f5e100ull});
      size_t k = r.chance(0.5) ? 4 : 8;
      size_t p = r.chance(0.6) ? at & ~size_t{3} : at;
      for (size_t i = 0; i < k && p + i < n; i++) {
        b[p + i] = static_cast<uint8_t>(v >> (8 * i));
      }
      what = vh::sf("%zu bytes value %llx at %zu", k, (unsigned long long)v, p);
      break;
    }
    case 6: {
      size_t k = min(n - at, 1 + r.below(100));
      b.erase(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + k));
      what = vh::sf("%zu bytes removed at %zu", k, at);
      break;
    }
    case 7: { // two parts exchanged
      size_t k = 1 + r.below(24);
      size_t to = r.below(n);
      for (size_t i = 0; i < k && at + i < n && to + i < n; i++) {
        swap(b[at + i], b[to + i]);
      }
      what = vh::sf("%zu bytes exchanged, %zu and %zu", k, at, to);
      break;
    }
    case 8: { // the tail of another cache
      size_t p = min(at, other.size());
      b.resize(p);
      b.insert(b.end(), other.begin() + static_cast<long>(p), other.end());
      what = vh::sf("tail of another cache from %zu", p);
      break;
    }
    default: { // head of another cache
      size_t p = min({at, other.size(), n});
      copy(other.begin(), other.begin() + static_cast<long>(p), b.begin());
      what = vh::sf("head of another cache up to %zu", p);
    }
  }
  return b == was ? "" : what;
}

void api(Case& c) {
  auto& r = c.rng;
  bool big = r.chance(0.06);
  Details d = randomDetails(r, big);
  string path = c.file("cache"), otherPath = c.file("other");
  if (r.chance(0.3)) { // saved over something else
    save(path, randomDetails(r, false));
  }
  int e = save(path, d);
  string what = vh::sf("%zu streams, %zu tags, %zu records", d.streams.size(), d.tags.size(), d.index.size());
  if (!c.check(e == 0, "write-failed", "%s: %d %s", what.c_str(), e, errorCodeToMessage(e).c_str())) {
    return;
  }
  Details got;
  e = load(path, got);
  if (!c.check(e == 0, "read-failed", "%s: %d %s", what.c_str(), e, errorCodeToMessage(e).c_str())) {
    return;
  }
  string dd = diff(d, got);
  c.check(dd.empty(), "not-what-was-saved", "%s: %s", what.c_str(), dd.c_str());
  c.count("round_trips");
  c.maxi("records_cached", static_cast<int64_t>(d.index.size()));
  Details second = randomDetails(r, false);
  save(otherPath, second);
  Bytes bytes = vh::slurp(path), other = vh::slurp(otherPath);
  c.check(vh::listDir(c.tmp).size() == 2, "leftovers", "%s: %zu files after saving two caches", what.c_str(), vh::listDir(c.tmp).size());
  int rounds = big ? 6 : (c.thorough ? 60 : 25);
  for (int k = 0; k < rounds; k++) {
    Bytes b = bytes;
    string dm = damage(r, b, other);
    if (dm.empty()) {
      continue;
    }
    if (r.chance(0.2)) {
      string more = damage(r, b, other);
      dm += more.empty() ? "" : " and " + more;
      if (b == bytes) {
        continue;
      }
    }
    vh::spew(path, b.data(), b.size());
    Details x;
    e = load(path, x);
    c.count(e == 0 ? "damage_harmless" : "damage_refused");
    if (e == 0 && b != other) {
      string dx = diff(d, x);
      c.check(dx.empty(), "damage-unnoticed", "%s: %s: %s", what.c_str(), dm.c_str(), dx.substr(0, 400).c_str());
    }
    c.signature(dm.substr(0, 8) + vh::sf("%d", e));
  }
  // regenerated over the damaged one
  e = save(path, d);
  Details again;
  if (c.check(e == 0 && load(path, again) == 0, "not-regenerated", "%s: %d", what.c_str(), e)) {
    string da = diff(d, again);
    c.check(da.empty(), "regenerated-wrong", "%s: %s", what.c_str(), da.c_str());
  }
  // other files are not caches
  if (r.chance(0.3)) {
    Plan p = randomPlan(r, {});
    execute(p, c.file("rec.vrs"));
    Details x;
    c.check(load(c.file("rec.vrs"), x) != 0, "recording-taken-for-cache", "%s", p.str().c_str());
    c.check(load(c.file("none"), x) != 0, "missing-taken-for-cache", "missing file");
  }
}

// ---------------------------------------------------------------------------------------------------------------

struct Remote {
  static inline atomic<int64_t> reads{0};
  static inline int64_t failAt{-1};
  static inline bool sticky{false};
  static inline atomic<int64_t> failed{0};
  static void reset(int64_t at = -1, bool s = false) {
    reads = 0;
    failAt = at;
    sticky = s;
    failed = 0;
  }
};

const string kRemote = "faraway";

// a disk file seen as a remote one
class RemoteFile : public DiskFile {
 public:
  unique_ptr<FileHandler> makeNew() const override {
    return make_unique<RemoteFile>();
  }
  const string& getFileHandlerName() const override {
    return kRemote;
  }
  int openSpec(const FileSpec& spec) override {
    FileSpec s = spec;
    s.fileHandlerName.clear();
    readError_ = 0;
    return DiskFile::openSpec(s);
  }
  bool isRemoteFileSystem() const override {
    return true;
  }
  bool showProgress() const override {
    return false;
  }
  int setPos(int64_t p) override {
    readError_ = 0;
    return DiskFile::setPos(p);
  }
  int skipForward(int64_t p) override {
    readError_ = 0;
    return DiskFile::skipForward(p);
  }
  int read(void* buffer, size_t length) override {
    int64_t n = Remote::reads++;
    if (Remote::failAt >= 0 && (n == Remote::failAt || (Remote::sticky && n > Remote::failAt))) {
      Remote::failed++;
      readError_ = EIO;
      return readError_;
    }
    readError_ = 0;
    return DiskFile::read(buffer, length);
  }
  size_t getLastRWSize() const override {
    return readError_ ? 0 : DiskFile::getLastRWSize();
  }
  int getLastError() const override {
    return readError_ ? readError_ : DiskFile::getLastError();
  }
  bool isEof() const override {
    return readError_ == 0 && DiskFile::isEof();
  }

 private:
  int readError_{0};
};

struct Cancel : public ProgressLogger {
  explicit Cancel(int n) : ProgressLogger(false, 0), left{n} {}
  int left; // negative: for ever
  bool shouldKeepGoing() override {
    return left < 0 || left > 0 && left-- > 0;
  }
  void logMessage(const string&) override {}
  void logErrorMessage(const string&) override {}
};

struct Opened {
  int status{-1};
  FileContent content;
  Index index;
};

string diffOpened(const Opened& a, const Opened& b) {
  if (a.status != b.status) {
    return vh::sf("open: %d %s != %d %s", a.status, errorCodeToMessage(a.status).c_str(), b.status, errorCodeToMessage(b.status).c_str());
  }
  if (a.status != 0) {
    return "";
  }
  string d;
  if (a.content.hasIndex != b.content.hasIndex) {
    d += vh::sf("hasIndex %d != %d; ", a.content.hasIndex, b.content.hasIndex);
  }
  d += diffTags(a.content.tags, b.content.tags);
  if (a.content.streams != b.content.streams) {
    d += vh::sf("%zu != %zu streams; ", a.content.streams.size(), b.content.streams.size());
  }
  for (auto& t : a.content.streamTags) {
    auto it = b.content.streamTags.find(t.first);
    if (it != b.content.streamTags.end()) {
      d += diffTags(t.second.user, it->second.user) + diffTags(t.second.vrs, it->second.vrs);
    }
  }
  d += diffIndex(a.index, b.index);
  if (d.empty()) {
    d += diffOrdered(a.content.recs, b.content.recs);
    d += a.content.readStatus == b.content.readStatus ? "" : "read status";
  }
  return d;
}

Opened openIt(const FileSpec& spec, int cancelAfter = -1, bool contents = true) {
  Opened o;
  RecordFileReader reader;
  Cancel cancel(cancelAfter >= 0 ? cancelAfter : -1);
  if (cancelAfter >= 0) {
    reader.setOpenProgressLogger(&cancel);
  }
  o.status = reader.openFile(spec);
  if (o.status == 0) {
    o.index = reader.getIndex();
    if (contents) {
      readContent(reader, o.content);
    }
  }
  reader.closeFile();
  return o;
}

void reader(Case& c) {
  auto& r = c.rng;
  static bool registered = [] {
    FileHandlerFactory::getInstance().registerFileHandler(make_unique<RemoteFile>());
    return true;
  }();
  (void)registered;
  PlanOptions po;
  po.maxRecords = r.chance(0.1) ? 3000 : 60;
  po.maxSize = po.maxRecords > 100 ? 20 : 600;
  Plan p = randomPlan(r, po);
  string path = c.file("f.vrs");
  Recording rec = execute(p, path);
  if (rec.status != 0) {
    return;
  }
  FileSpec local;
  {
    RecordFileReader x;
    FileSpec spec;
    if (RecordFileReader::vrsFilePathToFileSpec(path, spec) != 0) {
      return;
    }
    local.chunks = spec.chunks;
  }
  string what = p.str();
  if (r.chance(0.35)) { // a recording that isn't complete
    const string& last = r.chance(0.7) ? local.chunks.back() : r.pick(local.chunks);
    Bytes b = vh::slurp(last);
    if (r.chance(0.6)) {
      b.resize(max<size_t>(r.below(b.size() + 1), 80));
      what += vh::sf("; truncated to %zu", b.size());
    } else {
      for (int k = 0; k < 3; k++) {
        size_t at = r.below(b.size());
        b[at] ^= static_cast<uint8_t>(1 << r.below(8));
        what += vh::sf("; bit flipped at %zu", at);
      }
    }
    vh::spew(last, b.data(), b.size());
  }
  FileSpec remote = local;
  remote.fileHandlerName = kRemote;
  if (r.chance(0.2)) {
    remote.extras["some"] = "thing";
  }
  FileCache::disableFileCache();
  Remote::reset();
  Opened expected = openIt(local);
  { // without cache, far away
    Opened o = openIt(remote);
    string d = diffOpened(expected, o);
    if (!c.check(d.empty(), "remote-differs", "%s: %s", what.c_str(), d.c_str())) {
      return;
    }
  }
  int64_t readsToOpen = 0;
  {
    Remote::reset();
    openIt(remote, -1, false);
    readsToOpen = Remote::reads;
  }
  string folder = c.file("cache");
  mkdir(folder.c_str(), 0777);
  int e = FileCache::makeFileCache("app", folder);
  if (!c.check(e == 0, "no-cache", "makeFileCache -> %d", e)) {
    return;
  }
  struct Off {
    ~Off() {
      FileCache::disableFileCache();
      Remote::reset();
    }
  } off;
  string cacheDir = folder + "/.app";
  auto files = [&] {
    vector<string> f;
    for (auto& n : vh::listDir(cacheDir)) {
      f.push_back(n.find('/') == string::npos ? cacheDir + "/" + n : n);
    }
    return f;
  };
  string history;
  auto verify = [&](const char* key, bool cold) {
    Remote::reset();
    Opened o = openIt(remote);
    string d = diffOpened(expected, o);
    c.count(cold ? "opened_cold" : "opened_with_cache");
    return c.check(d.empty(), key, "%s: %s: %s", what.c_str(), history.c_str(), d.substr(0, 500).c_str());
  };
  FileSpec sorted = remote;
  sorted.extras["sort_records"] = "1";
  FileSpec failFast = remote;
  failFast.extras["fail_fast_on_incomplete_index"] = "1";
  int steps = c.thorough ? 16 : 9;
  for (int k = 0; k < steps; k++) {
    size_t before = files().size();
    switch (r.below(8)) {
      case 0:
      case 1:
        history += " open,";
        break;
      case 2: { // an earlier attempt met a read error
        Remote::reset(static_cast<int64_t>(r.below(static_cast<uint64_t>(max<int64_t>(readsToOpen, 1)) + 2)), r.chance(0.4));
        history += vh::sf(" open failing at read %lld%s,", (long long)Remote::failAt, Remote::sticky ? "+" : "");
        openIt(remote, -1, false);
        c.count("opened_with_read_errors", Remote::failed > 0);
        break;
      }
      case 3: {
        int n = static_cast<int>(r.below(12));
        history += vh::sf(" open cancelled after %d steps,", n);
        Remote::reset();
        Opened o = openIt(remote, n, true);
        if (o.status == 0) {
          string d = diffOpened(expected, o);
          c.check(d.empty(), "cancelled-open-differs", "%s: %s: %s", what.c_str(), history.c_str(), d.c_str());
        } else {
          c.count("opens_cancelled");
        }
        break;
      }
      case 4: {
        history += " open sorted,";
        Remote::reset();
        Opened o = openIt(sorted);
        if (c.check(o.status == expected.status, "sorted-open", "%s: %s: %d", what.c_str(), history.c_str(), o.status) && o.status == 0) {
          Index x = expected.index;
          sort(x.begin(), x.end());
          string d;
          for (size_t i = 0; i < x.size() && i < o.index.size(); i++) { // same times, whichever order ties have
            if (!(x[i].timestamp == o.index[i].timestamp || std::isnan(x[i].timestamp)) && d.empty()) {
              d = vh::sf("record %zu: %g != %g", i, x[i].timestamp, o.index[i].timestamp);
            }
          }
          c.check(x.size() == o.index.size() && d.empty(), "sorted-open-differs", "%s: %s: %zu != %zu records %s", what.c_str(), history.c_str(), x.size(), o.index.size(), d.c_str());
        }
        break;
      }
      case 5:
        history += " open failing fast,";
        Remote::reset();
        openIt(failFast);
        break;
      default: { // the caches get damaged
        auto f = files();
        if (f.empty()) {
          break;
        }
        const string& file = r.pick(f);
        Bytes b = vh::slurp(file);
        Bytes other = vh::slurp(r.pick(f));
        string dm = damage(r, b, other);
        vh::spew(file, b.data(), b.size());
        history += " " + dm + " in " + file.substr(file.find_last_of('/') + 1, 12) + ",";
        c.count("caches_damaged");
      }
    }
    if (!verify("cache-differs", before == 0)) {
      return;
    }
  }
  // caches are used: opening reads less of the file
  if (expected.status == 0 && expected.content.hasIndex && p.records.size() > 5) {
    Remote::reset();
    openIt(remote, -1, false);
    c.count("opens_saved_by_cache", Remote::reads < readsToOpen);
  }
  c.count("cache_files", static_cast<int64_t>(files().size()));
  c.signature(what);
}

// the cache is being written while the process dies, or the disk fails
void interrupted(Case& c) {
  auto& r = c.rng;
  Details before = randomDetails(r, false), d = randomDetails(r, r.chance(0.05));
  string dir = c.file("d"), crash = c.file("c");
  mkdir(dir.c_str(), 0777);
  mkdir(crash.c_str(), 0777);
  string path = dir + "/cache";
  bool had = r.chance(0.5);
  auto start = [&] {
    vh::wipeDir(dir);
    if (had) {
      save(path, before);
    }
  };
  auto judge = [&](const string& at, const string& where) {
    Details x;
    int e = load(where, x);
    if (e == 0) {
      bool isNew = diff(d, x).empty();
      bool isOld = had && diff(before, x).empty();
      c.count(isNew ? "found_new" : isOld ? "found_old" : "found_other");
      c.check(isNew || isOld, "partial-cache-accepted", "%s: %s", at.c_str(), diff(d, x).c_str());
    } else {
      c.count("found_none");
    }
    return e;
  };
  start();
  vio::begin(dir, true);
  int e = save(path, d);
  vio::Log log = vio::end();
  c.check(e == 0, "write-failed", "%d", e);
  c.check(judge("complete", path) == 0, "complete-refused", "complete");
  // crash states: the file under its temporary or final name
  int points = c.thorough ? 60 : 20;
  for (int k = 0; k < points; k++) {
    size_t n = r.below(log.ops.size() + 1), part = 0;
    if (n < log.ops.size() && log.ops[n].kind == vio::kWrite && log.ops[n].data.size() > 1 && r.chance(0.6)) {
      part = 1 + r.below(log.ops[n].data.size() - 1);
    }
    State st = stateAt(log, n, part, r, r.chance(0.5));
    vh::wipeDir(crash);
    for (auto& f : st.files) {
      string where = crash + f.first.substr(dir.size());
      vh::spew(where, f.second.data(), f.second.size());
      judge("crash " + st.str, where);
      c.count("crash_states");
    }
  }
  // failures
  for (int k = 0; k < 6; k++) {
    start();
    vio::Fault f;
    f.kind = r.pick({(int)vio::kWrite, (int)vio::kWrite, (int)vio::kWrite, (int)vio::kFlush, (int)vio::kClose, (int)vio::kSeek, (int)vio::kOpen, (int)vio::kRename});
    f.nth = static_cast<int64_t>(r.below(f.kind == vio::kWrite ? 30 : 4));
    f.sticky = r.chance(0.5);
    f.shortWrite = r.chance(0.5);
    vio::begin(dir, false, f);
    e = save(path, d);
    int64_t hits = vio::faultHits();
    vio::end();
    string at = vh::sf("%s %lld failing%s%s (%lld times), write -> %d", vio::kindName(f.kind), (long long)f.nth, f.sticky ? "+" : "", f.shortWrite ? " short" : "", (long long)hits, e);
    c.count("writes_failed", e != 0);
    int e2 = judge(at, path);
    if (hits == 0) {
      c.check(e == 0 && e2 == 0, "failure-without-reason", "%s, read -> %d", at.c_str(), e2);
    }
  }
}

void runCase(Case& c) {
  if (c.mode == "api") {
    api(c);
  } else if (c.mode == "reader") {
    reader(c);
  } else {
    interrupted(c);
  }
}
} // namespace

VH_MAIN()
