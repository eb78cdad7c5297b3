// C24: threads using their own readers, writers, players, copies and converters get what they get when alone. Every
// case is a set of self-contained tasks, run concurrently by several threads first (the shared state of the library is
// met cold), then one after the other. Objects may be created by a thread, used by another, destroyed by a third.
// USES: core utils
// WITH: vrsgen plan rich perturb
// WRAP: localtime gmtime asctime ctime strtok
#include "perturb.h"
#include "plan.h"
#include "rich.h"

#include <vrs/FileDetailsCache.h>
#include <vrs/LegacyFormatsProvider.h>
#include <vrs/MultiRecordFileReader.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/TagConventions.h>
#include <vrs/TelemetryLogger.h>
#include <vrs/os/Utils.h>
#include <vrs/utils/AudioBlock.h>
#include <vrs/utils/AudioExtractor.h>
#include <vrs/utils/DataExtractor.h>
#include <vrs/utils/DecoderFactory.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/ImageExtractor.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/RecordFileInfo.h>
#include <vrs/utils/Validation.h>
#include <vrs/utils/cli/DataExtraction.h>

#include <condition_variable>
#include <sstream>
#include <thread>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

// libc functions whose result is shared by all threads: make their races visible to TSan
static int gLibcStatic;
extern "C" {
struct tm* __real_localtime(const time_t*);
struct tm* __wrap_localtime(const time_t* t) {
  gLibcStatic++;
  return __real_localtime(t);
}
struct tm* __real_gmtime(const time_t*);
struct tm* __wrap_gmtime(const time_t* t) {
  gLibcStatic++;
  return __real_gmtime(t);
}
char* __real_asctime(const struct tm*);
char* __wrap_asctime(const struct tm* t) {
  gLibcStatic++;
  return __real_asctime(t);
}
char* __real_ctime(const time_t*);
char* __wrap_ctime(const time_t* t) {
  gLibcStatic++;
  return __real_ctime(t);
}
char* __real_strtok(char*, const char*);
char* __wrap_strtok(char* s, const char* d) {
  gLibcStatic++;
  return __real_strtok(s, d);
}
}

namespace {

struct Shared {
  vector<string> plain; // sound recordings, with random records
  vector<string> rich; // with record formats
  vector<string> odd; // damaged, or without index
  string images; // raw images, to be extracted
  vector<string> all() const {
    vector<string> a = plain;
    a.insert(a.end(), rich.begin(), rich.end());
    a.insert(a.end(), odd.begin(), odd.end());
    a.push_back(images);
    return a;
  }
};

// what a task may use; its result is text
struct Task {
  const Shared* shared;
  uint64_t seed;
  string dir;
  string name;
  string result;
  string problem; // found by the task itself
  vector<StreamId> created; // ids given to the streams it created
  vector<function<void()>> stages; // run in order, by any threads
};

string msg(int e) {
  return e == 0 ? "ok" : errorCodeToMessage(e);
}

// instance ids of new streams depend on what other threads do: names by rank
struct Ranks {
  map<RecordableTypeId, vector<uint16_t>> ids;
  explicit Ranks(const set<StreamId>& all) {
    for (auto id : all) {
      ids[id.getTypeId()].push_back(id.getInstanceId());
    }
  }
  string operator()(StreamId id) const {
    auto it = ids.find(id.getTypeId());
    size_t n = it == ids.end() ? 999 : static_cast<size_t>(find(it->second.begin(), it->second.end(), id.getInstanceId()) - it->second.begin());
    return vh::sf("%d#%zu", static_cast<int>(id.getTypeId()), n);
  }
};

string digest(const FileContent& f) {
  string s = msg(f.status) + (f.hasIndex ? " index" : " no index");
  Ranks rank(f.streams);
  for (auto& t : f.tags) {
    s += "\n" + t.first + "=" + t.second;
  }
  for (auto st : f.streamTags) {
    s += "\n" + rank(st.first);
    st.second.vrs.erase("VRS_Serial_Number"); // random
    for (auto& t : st.second.user) {
      s += "\n  " + t.first + "=" + t.second;
    }
    for (auto& t : st.second.vrs) {
      s += "\n  vrs " + t.first + "=" + t.second;
    }
  }
  for (size_t i = 0; i < f.recs.size(); i++) {
    auto& r = f.recs[i];
    s += vh::sf("\n%s %s %.17g v%u %zu %016llx %s", rank(r.id).c_str(), toString(r.type).c_str(), r.ts, r.ver, r.data.size(), (unsigned long long)vh::fnv(r.data.data(), r.data.size()), i < f.readStatus.size() ? msg(f.readStatus[i]).c_str() : "");
  }
  for (auto& a : f.anomalies) {
    s += "\nanomaly: " + a;
  }
  return s;
}

// every block delivered, as text
struct Log : public RecordFormatStreamPlayer {
  string text;
  void line(const CurrentRecord& r, size_t i, const char* what, const string& more, const void* data, size_t n) {
    text += vh::sf("\n%s %.17g v%u block %zu %s %s %zu bytes %016llx", toString(r.recordType).c_str(), r.timestamp, r.formatVersion, i, what, more.c_str(), n, (unsigned long long)vh::fnv(data, n));
  }
  bool take(const CurrentRecord& r, size_t i, const char* what, const string& more, size_t size) {
    Bytes b(min<size_t>(size, r.reader->getUnreadBytes()));
    int status = b.empty() ? 0 : r.reader->read(b.data(), static_cast<uint32_t>(b.size()));
    line(r, i, what, more + (status ? " error" : ""), b.data(), b.size());
    return status == 0;
  }
  bool onDataLayoutRead(const CurrentRecord& r, size_t i, DataLayout& dl) override {
    ostringstream out;
    dl.printLayout(out, " ");
    out << dl.asJson(JsonFormatProfile::ExternalCompact);
    line(r, i, "datalayout", "", out.str().data(), out.str().size());
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "image", b.asString(), b.getBlockSize());
  }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "audio", b.asString(), b.getBlockSize());
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "custom", b.asString(), b.getBlockSize());
  }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "unsupported", b.asString(), b.getBlockSize());
  }
};

// files of a folder, by name and content
string folder(const string& dir, const function<string(string)>& rename = {}) {
  string s;
  vector<string> names = os::listDir(dir);
  sort(names.begin(), names.end());
  for (auto& n : names) {
    if (os::isDir(n)) {
      s += "\n" + os::getFilename(n) + "/" + folder(n, rename);
      continue;
    }
    Bytes b = vh::slurp(n);
    s += vh::sf("\n%s %zu %016llx", (rename ? rename(os::getFilename(n)) : os::getFilename(n)).c_str(), b.size(), (unsigned long long)vh::fnv(b.data(), b.size()));
  }
  return s;
}

// definitions for two recordable types, provided on demand
struct MyMeta : public AutoDataLayout {
  DataPieceValue<uint32_t> counter{"counter"};
  DataPieceString text{"text"};
  DataPieceVector<float> values{"values"};
  AutoDataLayoutEnd end;
};
struct Inner : public DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Inner)
  DataPieceValue<double> x{"x"};
  DataPieceArray<uint8_t> a{"a", 7};
};
struct Nested : public AutoDataLayout {
  Inner one{"one"};
  DataPieceString text{"text", "some default"};
  Inner two{"two"};
  DataPieceStringMap<int32_t> m{"m"};
  AutoDataLayoutEnd end;
};
struct Provider : public LegacyFormatsProvider {
  void registerLegacyRecordFormats(RecordableTypeId id) override {
    MyMeta meta;
    Nested nested;
    addLegacyRecordFormat(id, Record::Type::DATA, 77, meta.getContentBlock() + ContentBlock(ImageFormat::JPG), {&meta});
    addLegacyRecordFormat(id, Record::Type::CONFIGURATION, 76, nested.getContentBlock(), {&nested});
  }
};

struct CountingLogger : public TelemetryLogger {
  atomic<int> events{0};
  void logEvent(LogEvent&&) override {
    events++;
  }
  void logTraffic(const OperationContext&, const TrafficEvent&) override {
    events++;
  }
};

struct NamedFile : public DiskFile {
  explicit NamedFile(string n) : name{std::move(n)} {}
  unique_ptr<FileHandler> makeNew() const override {
    return make_unique<NamedFile>(name);
  }
  const string& getFileHandlerName() const override {
    return name;
  }
  int openSpec(const FileSpec& spec) override {
    FileSpec s(spec);
    s.fileHandlerName.clear(); // for us
    return DiskFile::openSpec(s);
  }
  string name;
};
struct NamedDelegator : public FileDelegator {
  int delegateOpen(const FileSpec& spec, unique_ptr<FileHandler>& out) override {
    out = make_unique<DiskFile>();
    FileSpec s(spec);
    s.fileHandlerName.clear();
    return out->openSpec(s);
  }
};

template <class T>
shared_ptr<T> keep(T* p) {
  return shared_ptr<T>(p);
}

PixelFormat randomPixels(Rng& r) {
  return r.pick({PixelFormat::GREY8, PixelFormat::RGB8, PixelFormat::BGR8, PixelFormat::GREY16, PixelFormat::GREY10, PixelFormat::RGBA8, PixelFormat::YUY2, PixelFormat::YUV_I420_SPLIT, PixelFormat::DEPTH32F, PixelFormat::RAW10, PixelFormat::RGB32F});
}

void noteIds(Task& t, const vector<StreamId>& ids) {
  t.created.insert(t.created.end(), ids.begin(), ids.end());
}

// ---- the tasks

void recordPlan(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    PlanOptions o;
    o.maxRecords = 25;
    o.maxSize = r.chance(0.3) ? 9000 : 300;
    Plan p = randomPlan(r, o);
    string path = t.dir + "/a.vrs";
    Recording rec = execute(p, path);
    vector<StreamId> ids;
    for (auto& s : rec.streams) {
      ids.push_back(s->getStreamId());
    }
    noteIds(t, ids);
    FileContent f = readFile(path);
    if (rec.status == 0) {
      string d = diffMultiset(rec.expected, f.recs);
      if (!d.empty()) {
        t.problem = "record: " + d;
      }
    }
    t.result = msg(rec.status) + " " + rec.failedAt + digest(f);
  });
}

void recordRich(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    RichOptions o;
    o.maxRecords = 12;
    string path = t.dir + "/r.vrs";
    {
      RichPlan p = makeRich(r, o);
      vector<StreamId> ids;
      for (auto& s : p.streams) {
        ids.push_back(s->getStreamId());
      }
      noteIds(t, ids);
      t.result = msg(writeRich(p, path, r.below(3)));
    }
    RecordFileReader reader;
    t.result += msg(reader.openFile(path));
    Ranks rank(reader.getStreams());
    for (auto id : reader.getStreams()) {
      Log log;
      reader.setStreamPlayer(id, &log);
      t.result += "\n" + rank(id) + msg(reader.readAllRecords()) + log.text;
      reader.setStreamPlayer(id, nullptr);
    }
  });
}

// a writer created by a thread, fed by another, closed by a third
struct Handed {
  RecordFileWriter writer;
  vector<unique_ptr<Stream>> streams;
  Plan plan;
  int created{}, closed{};
};
void recordHandedOver(Task& t) {
  auto h = make_shared<shared_ptr<Handed>>();
  string path = t.dir + "/h.vrs";
  t.stages.push_back([&t, h, path] {
    Rng r(t.seed);
    *h = make_shared<Handed>();
    auto& w = **h;
    PlanOptions o;
    o.maxRecords = 30;
    o.increasing = true;
    w.plan = randomPlan(r, o);
    vector<StreamId> ids;
    for (auto& ps : w.plan.streams) {
      w.streams.push_back(make_unique<Stream>(ps.type, ps.flavor));
      w.streams.back()->setCompression(ps.preset);
      ids.push_back(w.streams.back()->getStreamId());
      w.writer.addRecordable(w.streams.back().get());
    }
    noteIds(t, ids);
    w.writer.addTags(w.plan.tags);
    w.created = w.writer.createFileAsync(path);
  });
  for (int half = 0; half < 2; half++) {
    t.stages.push_back([h, half] {
      auto& w = **h;
      size_t n = w.plan.records.size();
      for (size_t i = half ? n / 2 : 0; i < (half ? n : n / 2); i++) {
        auto& r = w.plan.records[i];
        w.streams[r.stream]->add(r.ts, r.type, r.ver, r.data, r.direct);
        if (r.flushAfter && w.created == 0) {
          w.writer.writeRecordsAsync(r.ts);
        }
      }
    });
  }
  t.stages.push_back([h] { (**h).closed = (**h).writer.waitForFileClosed(); });
  t.stages.push_back([&t, h, path] {
    auto& w = **h;
    vector<Rec> expected;
    for (auto& s : w.streams) {
      expected.insert(expected.end(), s->log.begin(), s->log.end());
    }
    FileContent f = readFile(path);
    if (w.created == 0 && w.closed == 0) {
      string d = diffMultiset(expected, f.recs);
      if (!d.empty()) {
        t.problem = "handed over: " + d;
      }
    }
    t.result = msg(w.created) + msg(w.closed) + digest(f);
    h->reset();
  });
}

void readShared(Task& t) {
  auto reader = make_shared<shared_ptr<RecordFileReader>>();
  t.stages.push_back([&t, reader] {
    Rng r(t.seed);
    *reader = make_shared<RecordFileReader>();
    string path = r.pick(t.shared->all());
    t.result = msg((*reader)->openFile(path));
  });
  if (Rng(t.seed ^ 7).chance(0.5)) {
    t.stages.push_back([&t, reader] {
      string s;
      for (auto id : (*reader)->getStreams()) {
        s += id.getName() + (*reader)->getFlavor(id) + (*reader)->getSerialNumber(id);
        auto& idx = (*reader)->getIndex(id);
        if (!idx.empty()) {
          auto* near = (*reader)->getNearestRecordByTime(idx[idx.size() / 2]->timestamp, 1, id);
          s += vh::sf("%.17g", near ? near->timestamp : -1);
        }
      }
      t.result += s;
    });
  }
  t.stages.push_back([&t, reader] {
    FileContent f;
    f.status = 0;
    if ((*reader)->isOpened()) {
      readContent(**reader, f);
    }
    t.result += digest(f);
    reader->reset();
  });
}

void playShared(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    RecordFileReader reader;
    string path = r.pick(t.shared->all());
    t.result = os::getFilename(path) + msg(reader.openFile(path));
    if (r.chance(0.3)) {
      reader.setCachingStrategy(r.pick({CachingStrategy::Passive, CachingStrategy::Streaming}));
    }
    map<StreamId, Log> logs;
    for (auto id : reader.getStreams()) {
      reader.setStreamPlayer(id, &logs[id]);
    }
    t.result += msg(reader.readAllRecords());
    for (auto& l : logs) {
      t.result += "\n" + l.first.getName() + l.second.text;
    }
  });
}

void playMulti(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    MultiRecordFileReader reader;
    vector<string> paths{r.pick(t.shared->plain), r.pick(t.shared->plain)};
    t.result = msg(reader.open(paths));
    for (auto id : reader.getStreams()) {
      t.result += "\n" + id.getNumericName();
    }
    Collector c;
    for (auto id : reader.getStreams()) {
      reader.setStreamPlayer(id, &c);
    }
    if (reader.isOpened()) {
      for (uint32_t i = 0; auto* info = reader.getRecord(i); i++) {
        t.result += msg(reader.readRecord(*info));
      }
    }
    for (auto& rec : c.recs) {
      t.result += "\n" + rec.str();
    }
  });
}

void copyShared(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    vector<string> all = t.shared->all();
    FilteredFileReader a(r.pick(all)), b(r.pick(all));
    CopyOptions o(false);
    o.setCompressionPreset(randomPreset(r, false));
    o.compressionPoolSize = static_cast<unsigned>(r.below(4));
    o.mergeStreams = r.chance(0.4);
    o.maxChunkSizeMB = r.chance(0.2) ? 1 : 0;
    o.preallocateIndex = r.chance(0.7);
    string path = t.dir + "/copy.vrs";
    int status = a.openFile();
    bool merge = r.chance(0.4);
    if (status == 0 && merge) {
      status = b.openFile();
    }
    if (status == 0) {
      status = merge ? filterMerge(a, vector<FilteredFileReader*>{&b}, path, o) : filterCopy(a, path, o);
    }
    t.result = vh::sf("%s %u", msg(status).c_str(), o.outRecordCopiedCount) + digest(readFile(path));
  });
}

void checkShared(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    string path = r.pick(t.shared->all());
    FilteredFileReader f(path);
    t.result = os::getFilename(path) + msg(f.openFile());
    if (!f.reader.isOpened()) {
      return;
    }
    CopyOptions o(false);
    CheckType type = r.pick({CheckType::Checksum, CheckType::Checksums, CheckType::ChecksumVerbatim, CheckType::Check, CheckType::Checksum});
    string out = checkRecords(f, o, type);
    if (type != CheckType::Check) { // which tells durations
      t.result += out;
    }
  });
}

void compareShared(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    vector<string> all = t.shared->all();
    FilteredFileReader a(r.pick(all)), b(r.chance(0.5) ? a.getPathOrUri() : r.pick(all));
    t.result = msg(a.openFile()) + msg(b.openFile());
    if (a.reader.isOpened() && b.reader.isOpened()) {
      t.result += compareVRSfiles(a, b, CopyOptions(false)) ? " same" : " differ";
    }
  });
}

void describe(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    string path = r.pick(t.shared->all());
    ostringstream out;
    auto d = r.pick({RecordFileInfo::Details::Everything, RecordFileInfo::Details::Overview, RecordFileInfo::Details::Counters, RecordFileInfo::Details::Everything + RecordFileInfo::Details::CompleteTags});
    int status = RecordFileInfo::printOverview(out, path, d);
    t.result = msg(status) + out.str() + RecordFileInfo::jsonOverview(path, RecordFileInfo::Details::Everything);
    if (status == 0) {
      RecordFileReader reader;
      reader.openFile(path);
      for (auto id : reader.getStreams()) {
        RecordFormatMap formats;
        t.result += vh::sf(" %u", reader.getRecordFormats(id, formats));
        for (auto& f : formats) {
          t.result += f.second.asString();
        }
        t.result += vh::sf("%d%d", reader.mightContainImages(id), reader.mightContainAudio(id));
      }
    }
  });
}

void layouts(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    for (size_t n = 3 + r.below(10); n > 0; n--) {
      Nested nested;
      MyMeta meta;
      nested.one.x.set(r.unit());
      nested.two.x.set(static_cast<double>(r.below(100)));
      nested.text.stage(randomText(r, 30, true));
      meta.counter.set(static_cast<uint32_t>(r.below(1000)));
      vector<float> v(r.below(20), 0.5f);
      meta.values.stage(v);
      meta.text.stage(randomText(r, 20, true));
      nested.collectVariableDataAndUpdateIndex();
      meta.collectVariableDataAndUpdateIndex();
      DataLayout& l = r.chance(0.5) ? static_cast<DataLayout&>(nested) : meta;
      ostringstream out;
      l.printLayout(out);
      l.printLayoutCompact(out);
      string json = l.asJson(JsonFormatProfile::ExternalPretty);
      auto back = DataLayout::makeFromJson(l.asJson(JsonFormatProfile::VrsFormat));
      t.result += out.str() + json + (back && back->isSame(l) ? "same" : "not the same");
      Nested target;
      if (back) {
        t.result += target.mapLayout(*back) ? "mapped" : "not mapped";
      }
      if (!back || !back->isSame(l)) {
        t.problem = "a layout is not the same once described";
      }
    }
  });
}

void images(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    for (size_t n = 1 + r.below(4); n > 0; n--) {
      PixelFormat pf = randomPixels(r);
      auto frame = make_shared<PixelFrame>(pf, static_cast<uint32_t>(2 * (1 + r.below(30))), static_cast<uint32_t>(2 * (1 + r.below(20))));
      for (auto& b : frame->getBuffer()) {
        b = static_cast<uint8_t>(r.next());
      }
      if (pf == PixelFormat::DEPTH32F || pf == PixelFormat::RGB32F) {
        auto* f = frame->data<float>();
        for (size_t i = 0; i < frame->size() / 4; i++) {
          f[i] = static_cast<float>(r.unit());
        }
      }
      shared_ptr<PixelFrame> normal;
      PixelFrame::normalizeFrame(frame, normal, r.chance(0.5));
      t.result += "\n" + frame->getSpec().asString() + " -> ";
      if (!normal) {
        continue;
      }
      t.result += normal->getSpec().asString() + vh::sf(" %016llx", (unsigned long long)vh::fnv(normal->rdata(), normal->size()));
      vector<uint8_t> png, jpg;
      int status = normal->writeAsPng("", &png);
      t.result += msg(status);
      PixelFrame back;
      if (status == 0 && back.readPngFrame(png)) {
        t.result += vh::sf(" png %016llx", (unsigned long long)vh::fnv(back.rdata(), back.size()));
      }
      if (normal->jpgCompress(jpg, 80) && back.readJpegFrame(jpg)) {
        t.result += vh::sf(" jpg %016llx", (unsigned long long)vh::fnv(back.rdata(), back.size()));
      }
      vector<uint8_t> bad(png.begin(), png.begin() + static_cast<ptrdiff_t>(png.size() / 2));
      t.result += back.readPngFrame(bad) ? " half" : " no";
      bad.assign(jpg.begin(), jpg.begin() + static_cast<ptrdiff_t>(jpg.size() / 3));
      t.result += back.readJpegFrame(bad) ? " half" : " no";
    }
  });
}

void audio(Task& t) {
  struct Codecs {
    AudioCompressionHandler enc;
    AudioDecompressionHandler dec;
    Rng r{1};
    AudioContentBlockSpec spec;
    bool ok{};
  };
  auto h = make_shared<shared_ptr<Codecs>>();
  t.stages.push_back([&t, h] {
    *h = make_shared<Codecs>();
    (**h).r = Rng(t.seed);
    (**h).spec = AudioContentBlockSpec(AudioFormat::PCM, AudioSampleFormat::S16_LE, static_cast<uint8_t>(1 + (**h).r.below(2)), 0, 48000, 480);
    (**h).ok = (**h).enc.create((**h).spec);
    t.result = (**h).ok ? "created" : "not created";
  });
  t.stages.push_back([&t, h] {
    auto& c = **h;
    for (size_t n = 1 + c.r.below(6); c.ok && n > 0; n--) {
      vector<int16_t> in(480u * c.spec.getChannelCount());
      for (auto& x : in) {
        x = static_cast<int16_t>(c.r.next());
      }
      vector<uint8_t> packet(8000);
      int size = c.enc.compress(in.data(), 480, packet.data(), packet.size());
      t.result += vh::sf(" %d", size);
      if (size <= 0) {
        continue;
      }
      packet.resize(static_cast<size_t>(size));
      AudioContentBlockSpec os(AudioFormat::OPUS, AudioSampleFormat::S16_LE, c.spec.getChannelCount(), 0, 48000, 480);
      AudioBlock block(os, std::move(packet)), out;
      bool ok = block.opusDecompress(c.dec, out);
      t.result += ok ? vh::sf(" %016llx", (unsigned long long)vh::fnv(out.rdata(), out.size())) : " no";
    }
    h->reset();
  });
}

void specs(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    for (size_t n = 10; n > 0; n--) {
      string text = r.pick<string>({"/a/b.vrs", "diskfile:/a/b.vrs", "asyncdiskfile:///x?ioengine=sync&a=b", "{\"storage\":\"diskfile\",\"chunks\":[\"/x\",\"/y\"],\"sizes\":[1,2],\"k\":\"v\"}", "nosuch://x/y?z=%41", "1a:", "{", ""});
      FileSpec s;
      t.result += msg(s.fromPathJsonUri(text)) + s.toJson() + s.toPathJsonUri() + s.getEasyPath() + s.getXXHash();
      unique_ptr<FileHandler> h;
      t.result += msg(FileHandlerFactory::getInstance().delegateOpen(text, h)) + (h ? h->getFileHandlerName() : "none");
    }
  });
}

void handlers(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    auto& factory = FileHandlerFactory::getInstance();
    string name = vh::sf("mine%llx", (unsigned long long)t.seed), path = r.pick(t.shared->plain);
    for (size_t n = 1 + r.below(6); n > 0; n--) {
      factory.registerFileHandler(make_unique<NamedFile>(name));
      auto h = factory.getFileHandler(name);
      t.result += h ? h->getFileHandlerName() == name ? "mine" : "other" : "none";
      FileSpec spec(name, {path});
      RecordFileReader reader;
      t.result += msg(reader.openFile(spec)) + vh::sf("%zu", reader.getIndex().size());
      if (!h || !reader.isOpened()) {
        t.problem = "a registered file handler can't be used";
      }
      factory.registerFileDelegator(name + "d", make_unique<NamedDelegator>());
      factory.registerExtraDelegator("extra", name, make_unique<NamedDelegator>());
      RecordFileReader second, third;
      spec.fileHandlerName = name + "d";
      t.result += msg(second.openFile(spec));
      spec.fileHandlerName = "nosuch";
      spec.extras["extra"] = name;
      t.result += msg(third.openFile(spec));
      factory.unregisterExtraDelegator("extra", name);
      factory.unregisterFileDelegator(name + "d");
      factory.unregisterFileHandler(name);
      h = factory.getFileHandler(name);
      t.result += h ? "mine" : "none";
    }
  });
}

void errors(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    for (size_t n = 1 + r.below(12); n > 0; n--) {
      string name = vh::sf("domain%llu", (unsigned long long)r.below(4));
      ErrorDomain d = newErrorDomain(name);
      int64_t code = static_cast<int64_t>(r.below(20));
      int e = domainErrorCode(d, code, vh::sf("message %lld of %s", (long long)code, name.c_str()).c_str());
      string text = errorCodeToMessage(e);
      if (text.find(vh::sf("message %lld of %s", (long long)code, name.c_str())) == string::npos || newErrorDomain(name) != d) {
        t.problem = "errors: " + text;
      }
      t.result += "\n" + text + errorCodeToMessage(static_cast<int>(r.below(140))) + errorCodeToMessage(domainError(r.pick({DecodeStatus::CodecNotFound, DecodeStatus::DecoderError, static_cast<DecodeStatus>(99)})));
      errorCodeToMessage(e + static_cast<int>(r.below(60))); // that of any thread
    }
  });
}

void legacy(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    for (size_t n = 1 + r.below(4); n > 0; n--) {
      auto id = static_cast<RecordableTypeId>(1000 + r.below(300));
      RecordFormatMap formats;
      RecordFormatRegistrar::getInstance().getLegacyRecordFormats(id, formats);
      for (auto& f : formats) {
        t.result += "\n" + f.second.asString();
      }
      auto layout = RecordFormatRegistrar::getInstance().getLatestDataLayout(id, r.pick({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE}));
      t.result += layout ? layout->asJson() : "none";
      t.result += toString(id);
      if (formats.size() != 2) {
        t.problem = vh::sf("%zu legacy formats instead of 2", formats.size());
      }
    }
  });
}

void telemetry(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    if (r.chance(0.3)) {
      TelemetryLogger::setLogger(make_unique<CountingLogger>());
    }
    OperationContext oc("op", "here");
    TelemetryLogger::warning(oc, "w");
    TelemetryLogger::traffic(oc, TrafficEvent().setIsDownload().setUrl("http://x/y").setAttemptStartTime());
    TelemetryLogger::flush();
    t.result = "done";
  });
}

void paths(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    set<string> unique;
    for (int i = 0; i < 10; i++) {
      unique.insert(os::getUniquePath(t.dir + "/x"));
      unique.insert(os::randomName(12));
    }
    t.result = vh::sf("%zu", unique.size()) + os::fileErrorToString(static_cast<int>(r.below(60))) + os::sanitizeFileName("a:b/c") + os::getHomeFolder();
    if (unique.size() != 20) {
      t.problem = "random names repeat";
    }
  });
}

void details(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    RecordFileReader reader;
    t.result = msg(reader.openFile(r.pick(t.shared->all())));
    map<StreamId, StreamTags> tags;
    for (auto id : reader.getStreams()) {
      tags[id] = reader.getTags(id);
    }
    string cache = t.dir + "/cache";
    t.result += msg(FileDetailsCache::write(cache, reader.getStreams(), reader.getTags(), tags, reader.getIndex(), reader.hasIndex()));
    set<StreamId> streams;
    map<string, string> fileTags;
    map<StreamId, StreamTags> streamTags;
    vector<IndexRecord::RecordInfo> index;
    bool has{};
    t.result += msg(FileDetailsCache::read(cache, streams, fileTags, streamTags, index, has));
    t.result += vh::sf("%zu %zu %zu %zu %d", streams.size(), fileTags.size(), streamTags.size(), index.size(), has);
    if (streams != reader.getStreams() || fileTags != reader.getTags() || index.size() != reader.getIndex().size()) {
      t.problem = "the details cache doesn't hold what was written";
    }
  });
}

void extractData(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    RecordFileReader reader;
    vector<string> paths = t.shared->rich;
    paths.push_back(t.shared->images);
    string out = t.dir + "/data";
    t.result = msg(reader.openFile(r.pick(paths)));
    DataExtractor x(reader, out);
    for (auto id : reader.getStreams()) {
      x.extract(id);
    }
    t.result += msg(x.createOutput());
    t.result += msg(reader.readAllRecords());
    t.result += msg(x.completeOutput());
    t.result += folder(out);
  });
}

void extractImagesTask(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    FilteredFileReader f(t.shared->images);
    t.result = msg(f.openFile());
    bool raw = r.chance(0.3);
    extractImages(t.dir + "/img", f, raw);
    t.result += folder(t.dir + "/img");
    size_t want = 0;
    for (auto& i : f.reader.getIndex()) {
      want += i.recordType == Record::Type::DATA;
    }
    size_t got = os::listDir(t.dir + "/img").size();
    if (got != want) {
      t.problem = vh::sf("extract images: %zu files instead of %zu", got, want);
    }
  });
}

void extractAudioTask(Task& t) {
  t.stages.push_back([&t] {
    Rng r(t.seed);
    FilteredFileReader f(r.pick(t.shared->rich));
    t.result = msg(f.openFile());
    t.result += msg(extractAudio(t.dir + "/audio", f));
    t.result += folder(t.dir + "/audio");
  });
}

struct Kind {
  const char* name;
  void (*make)(Task&);
  unsigned weight;
};
const Kind kKinds[] = {
    {"record", recordPlan, 4}, {"record_rich", recordRich, 3}, {"record_handed_over", recordHandedOver, 4}, {"read", readShared, 4}, {"play", playShared, 4},
    {"play_multi", playMulti, 2}, {"copy", copyShared, 4}, {"check", checkShared, 2}, {"compare", compareShared, 2}, {"describe", describe, 3}, {"layouts", layouts, 3},
    {"images", images, 2}, {"audio", audio, 2}, {"specs", specs, 1}, {"handlers", handlers, 2}, {"errors", errors, 2}, {"legacy", legacy, 2}, {"telemetry", telemetry, 1},
    {"paths", paths, 1}, {"details", details, 1}, {"extract_data", extractData, 2}, {"extract_images", extractImagesTask, 2}, {"extract_audio", extractAudioTask, 1}};

struct ImageStream : public Recordable {
  ImageStream() : Recordable(RecordableTypeId::UnitTest1, "a/b") {}
  const Record* createConfigurationRecord() override {
    return createRecord(0, Record::Type::CONFIGURATION, 1);
  }
  const Record* createStateRecord() override {
    return createRecord(0, Record::Type::STATE, 1);
  }
  using Recordable::addRecordFormat;
  using Recordable::createRecord;
};

Shared makeShared(Case& c) {
  auto& r = c.rng;
  Shared s;
  TemporaryRecordableInstanceIdsResetter resetter;
  for (int i = 0; i < 3; i++) {
    PlanOptions o;
    o.maxRecords = 40;
    o.maxSize = 2000;
    Plan p = randomPlan(r, o);
    if (r.chance(0.7)) {
      p.tags[tag_conventions::kCaptureTimeEpoch] = vh::sf("%llu", 1600000000ull + r.below(100000000));
    }
    string path = c.file(vh::sf("p%d.vrs", i));
    if (execute(p, path).status == 0) {
      s.plain.push_back(path);
    }
  }
  for (int i = 0; i < 2; i++) {
    RichOptions o;
    o.maxRecords = 20;
    string path = c.file(vh::sf("r%d.vrs", i));
    RichPlan p = makeRich(r, o);
    if (writeRich(p, path) == 0) {
      s.rich.push_back(path);
    }
  }
  {
    s.images = c.file("images.vrs");
    RecordFileWriter w;
    vector<unique_ptr<ImageStream>> streams;
    for (size_t n = 1 + r.below(2); n > 0; n--) {
      streams.push_back(make_unique<ImageStream>());
      ImageContentBlockSpec spec(r.pick({PixelFormat::GREY8, PixelFormat::RGB8, PixelFormat::GREY16}), static_cast<uint32_t>(1 + r.below(30)), static_cast<uint32_t>(1 + r.below(20)));
      streams.back()->addRecordFormat(Record::Type::DATA, 1, ContentBlock(spec, spec.getRawImageSize()), {});
      w.addRecordable(streams.back().get());
      for (size_t k = 1 + r.below(12); k > 0; k--) {
        Bytes b = randomPayload(r, spec.getRawImageSize());
        streams.back()->createRecord(static_cast<double>(k), Record::Type::DATA, 1, DataSource(DataSourceChunk(b.data(), b.size())));
      }
    }
    w.writeToFile(s.images);
  }
  // without index, or damaged
  for (int i = 0; i < 2 && !s.plain.empty(); i++) {
    string source = r.chance(0.5) ? r.pick(s.plain) : s.images;
    if (!vh::slurp(source + "_1").empty()) {
      continue;
    }
    Bytes b = vh::slurp(source);
    if (b.size() < 200) {
      continue;
    }
    if (r.chance(0.4)) {
      b.resize(b.size() / 2 + r.below(b.size() / 2));
    } else {
      for (size_t n = 1 + r.below(3); n > 0; n--) {
        size_t at = b.size() / 3 + r.below(b.size() * 2 / 3);
        b[at] = static_cast<uint8_t>(b[at] ^ (1 + r.below(255)));
      }
    }
    string path = c.file(vh::sf("odd%d.vrs", i));
    vh::spew(path, b.data(), b.size());
    s.odd.push_back(path);
  }
  return s;
}

struct Job {
  Task* task;
  size_t stage;
};

vector<unique_ptr<Task>> makeTasks(const Shared& s, const vector<pair<size_t, uint64_t>>& what, const string& dir) {
  vector<unique_ptr<Task>> tasks;
  for (size_t i = 0; i < what.size(); i++) {
    auto t = make_unique<Task>();
    t->shared = &s;
    t->seed = what[i].second;
    t->dir = dir + vh::sf("/%zu", i);
    mkdir(t->dir.c_str(), 0755);
    t->name = kKinds[what[i].first].name;
    kKinds[what[i].first].make(*t);
    tasks.push_back(std::move(t));
  }
  return tasks;
}

void runCase(Case& c) {
  static const bool once = [] {
    RecordFormatRegistrar::getInstance().registerProvider(make_unique<Provider>());
    return true;
  }();
  (void)once;
  auto& r = c.rng;
  Recordable::resetNewInstanceIds();
  Shared shared = makeShared(c);
  if (shared.plain.empty() || shared.rich.empty()) {
    return;
  }
  unsigned total = 0;
  for (auto& k : kKinds) {
    total += k.weight;
  }
  size_t threads = 2 + r.below(6);
  size_t n = threads * (1 + r.below(4));
  bool focus = r.chance(0.4); // several of the same kind
  vector<pair<size_t, uint64_t>> what;
  size_t kind = 0;
  string sig;
  for (size_t i = 0; i < n; i++) {
    if (i == 0 || !focus || r.chance(0.25)) {
      uint64_t w = r.below(total);
      for (kind = 0; w >= kKinds[kind].weight; kind++) {
        w -= kKinds[kind].weight;
      }
    }
    what.emplace_back(kind, r.next());
    sig += vh::sf("%zu,", kind);
  }
  string da = c.file("t"), db = c.file("s");
  mkdir(da.c_str(), 0755);
  mkdir(db.c_str(), 0755);
  auto together = makeTasks(shared, what, da);
  auto alone = makeTasks(shared, what, db);
  // all together
  {
    mutex m;
    condition_variable cv;
    deque<Job> ready;
    size_t left = 0, handovers = 0;
    for (auto& t : together) {
      ready.push_back({t.get(), 0});
      left++;
    }
    if (r.chance(0.7)) {
      perturb::start(r.next(), static_cast<unsigned>(20 + r.below(150)), static_cast<unsigned>(50 + r.below(600)), r.chance(0.3) ? 200 : 0);
    }
    bool own = r.chance(0.3); // every thread finishes the tasks it began
    vector<thread> pool;
    size_t waiting = 0;
    for (size_t i = 0; i < threads; i++) {
      pool.emplace_back([&] {
        {
          unique_lock<mutex> lock(m); // all start at once
          if (++waiting == threads) {
            cv.notify_all();
          }
          cv.wait(lock, [&] { return waiting >= threads; });
        }
        for (;;) {
          Job job;
          {
            unique_lock<mutex> lock(m);
            cv.wait(lock, [&] { return !ready.empty() || left == 0; });
            if (ready.empty()) {
              return;
            }
            job = ready.front();
            ready.pop_front();
          }
          do {
            job.task->stages[job.stage++]();
          } while (own && job.stage < job.task->stages.size());
          unique_lock<mutex> lock(m);
          if (job.stage < job.task->stages.size()) {
            ready.push_back(job);
            handovers++;
          } else {
            left--;
          }
          cv.notify_all();
        }
      });
    }
    for (auto& t : pool) {
      t.join();
    }
    c.count("pauses", static_cast<int64_t>(perturb::pauses()));
    sig += vh::sf("%016llx", (unsigned long long)perturb::signature());
    perturb::stop();
    c.count("handed_over", static_cast<int64_t>(handovers));
    c.maxi("threads", static_cast<int64_t>(threads));
  }
  // one by one
  for (auto& t : alone) {
    for (auto& s : t->stages) {
      s();
    }
  }
  set<StreamId> ids;
  for (size_t i = 0; i < n; i++) {
    Task &t = *together[i], &a = *alone[i];
    c.count("tasks");
    c.count(string("task_") + t.name);
    // the folders are different
    auto clean = [](string s, const string& dir) {
      for (size_t p; (p = s.find(dir)) != string::npos;) {
        s.replace(p, dir.size(), "DIR");
      }
      return s;
    };
    string got = clean(t.result, t.dir), want = clean(a.result, a.dir);
    c.check(t.problem.empty(), "wrong-result:" + t.name, "%s: %s", t.name.c_str(), t.problem.c_str());
    c.check(a.problem.empty() || !t.problem.empty(), "wrong-result-alone:" + t.name, "%s: %s", t.name.c_str(), a.problem.c_str());
    if (got != want) {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k]) {
        k++;
      }
      size_t b = k > 60 ? k - 60 : 0;
      c.fail("different-result:" + t.name, "task %zu (%s): '...%s' instead of '...%s' when alone", i, t.name.c_str(), vh::printable(got.substr(b, 200), 200).c_str(), vh::printable(want.substr(b, 200), 200).c_str());
    }
    for (auto id : t.created) {
      c.count("streams");
      c.check(ids.insert(id).second, "same-stream-id", "two streams were given the id %s", id.getNumericName().c_str());
    }
  }
  c.count("results_compared", static_cast<int64_t>(n));
  c.signature(sig);
}
} // namespace
VH_MAIN()
