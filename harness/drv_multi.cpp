// C14: several files read together show what the files show one by one, merged by time.
// WITH: vrsgen plan rich
#include "plan.h"
#include "rich.h"

#include <vrs/MultiRecordFileReader.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/TagConventions.h>

#include <cmath>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
using Info = IndexRecord::RecordInfo;

struct File {
  string path;
  map<string, string> tags;
  bool valid{true};
};

// every block delivered, as text
struct Log : public RecordFormatStreamPlayer {
  vector<string> lines;
  void line(const CurrentRecord& r, size_t i, const char* what, const string& more, const void* data, size_t n) {
    lines.push_back(vh::sf("%s %.17g v%u block %zu %s %s %zu bytes %016llx", toString(r.recordType).c_str(), r.timestamp, r.formatVersion, i, what, more.c_str(), n, (unsigned long long)vh::fnv(data, n)));
  }
  bool take(const CurrentRecord& r, size_t i, const char* what, const string& more, size_t size) {
    Bytes b(min<size_t>(size, r.reader->getUnreadBytes()));
    int status = b.empty() ? 0 : r.reader->read(b.data(), static_cast<uint32_t>(b.size()));
    line(r, i, what, more + (status ? " error" : ""), b.data(), b.size());
    return status == 0;
  }
  bool onDataLayoutRead(const CurrentRecord& r, size_t i, DataLayout& dl) override {
    auto& f = dl.getFixedData();
    auto& v = dl.getVarData();
    string all(f.begin(), f.end());
    all.append(v.begin(), v.end());
    line(r, i, "datalayout", "", all.data(), all.size());
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "image", b.asString(), b.getBlockSize());
  }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "audio", b.asString(), b.getBlockSize());
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "custom", b.asString(), b.getBlockSize());
  }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, "unsupported", b.asString(), b.getBlockSize());
  }
  int recordReadComplete(RecordFileReader& reader, const Info& info) override {
    lines.push_back(vh::sf("complete %.17g", info.timestamp));
    return RecordFormatStreamPlayer::recordReadComplete(reader, info);
  }
};

vector<File> makeFiles(Case& c, size_t n, bool rich) {
  auto& r = c.rng;
  vector<File> files;
  bool overlap = r.chance(0.85); // same ids in several files
  bool related = r.chance(0.85);
  string session = r.pick<string>({"s", "42", "é"});
  unique_ptr<TemporaryRecordableInstanceIdsResetter> once;
  if (!overlap) {
    once.reset(new TemporaryRecordableInstanceIdsResetter);
  }
  bool grid = r.chance(0.5);
  vector<unique_ptr<Recordable>> others;
  vector<RecordableTypeId> types{RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::SlamCameraData, RecordableTypeId::ForwardCameraRecordableClass};
  types.resize(1 + r.below(4));
  for (size_t i = 0; i < n; i++) {
    unique_ptr<TemporaryRecordableInstanceIdsResetter> resetter;
    if (overlap) {
      resetter.reset(new TemporaryRecordableInstanceIdsResetter);
      for (size_t skip = r.below(4) == 0 ? 1 + r.below(3) : 0; skip > 0; skip--) { // leave a few ids unused
        Stream unused(r.pick(types), "x/y");
      }
    }
    File f;
    f.path = c.file(vh::sf("%s%zu.vrs", r.pick({"f", "a b", "g+"}), i));
    map<string, string> tags = randomTags(r, 3);
    for (const char* tag : {tag_conventions::kSessionId, tag_conventions::kCaptureTimeEpoch, "mine"}) {
      tags.erase(tag);
      if (r.chance(0.7)) {
        tags[tag] = related || r.chance(0.7) ? session : r.pick<string>({"other", session + "2", ""});
      }
    }
    f.tags = tags;
    int status = 0;
    if (rich) {
      RichOptions o;
      o.maxRecords = 15;
      RichPlan p = makeRich(r, o);
      p.tags = tags;
      status = writeRich(p, f.path);
    } else {
      PlanOptions o;
      o.maxStreams = r.chance(0.2) ? 12 : 4;
      o.maxRecords = r.chance(0.1) ? 0 : r.chance(0.05) ? 200 : 30;
      o.maxSize = 300;
      o.engines = r.chance(0.2);
      Plan p = randomPlan(r, o);
      p.tags = tags;
      for (auto& s : p.streams) {
        if (r.chance(0.9)) {
          s.type = r.pick(types);
          s.flavor = isARecordableClass(s.type) || r.chance(0.5) ? r.pick<string>({"a/b", "a/c"}) : "";
        }
        if (r.chance(0.5)) {
          s.tags["side"] = r.pick<string>({"left", "right", "1"});
        }
      }
      if (grid) {
        for (auto& rec : p.records) {
          rec.ts = static_cast<double>(r.below(6)) / 2;
          rec.flushAfter = false;
        }
        if (p.how == kAsync) {
          p.how = kSync;
        }
      }
      auto rec = execute(p, f.path);
      status = rec.status;
    }
    if (status != 0) {
      c.failNow("setup", "recording -> %d", status);
    }
    files.push_back(f);
  }
  return files;
}

// "" when the files may be refused or accepted
int relation(const vector<File>& files, const vector<string>& names) {
  int result = 1; // related
  for (auto& name : names) {
    set<string> values;
    for (auto& f : files) {
      auto i = f.tags.find(name);
      values.insert(i == f.tags.end() ? "" : i->second);
    }
    bool some = values.erase("") > 0;
    if (values.size() > 1) {
      return -1;
    }
    if (some && !values.empty()) {
      result = 0; // not told by all the files
    }
  }
  return result;
}

string describe(const Info* i) {
  return i == nullptr ? "none" : vh::sf("%s %s %.17g @%lld", i->streamId.getNumericName().c_str(), toString(i->recordType).c_str(), i->timestamp, (long long)i->fileOffset);
}
bool sameInfo(const Info* a, const Info* b) {
  if (a == nullptr || b == nullptr) {
    return a == b;
  }
  return a->streamId == b->streamId && a->recordType == b->recordType && memcmp(&a->timestamp, &b->timestamp, 8) == 0 && a->fileOffset == b->fileOffset;
}

struct Single {
  RecordFileReader reader;
};

void verify(Case& c, MultiRecordFileReader& multi, const vector<File>& files, bool specs) {
  auto& r = c.rng;
  vector<unique_ptr<RecordFileReader>> single;
  size_t totalStreams = 0, totalRecords = 0;
  int64_t totalSize = 0;
  for (auto& f : files) {
    single.emplace_back(new RecordFileReader);
    int status = specs ? single.back()->openFile(FileSpec({f.path})) : single.back()->openFile(f.path);
    if (status != 0) {
      c.failNow("setup", "file -> %d", status);
    }
    totalStreams += single.back()->getStreams().size();
    totalRecords += single.back()->getRecordCount();
    totalSize += single.back()->getTotalSourceSize();
  }
  auto& readers = multi.getReaders();
  if (readers.size() != files.size()) {
    c.failNow("readers", "%zu readers for %zu files", readers.size(), files.size());
  }
  set<StreamId> ids = multi.getStreams();
  if (ids.size() != totalStreams) {
    c.failNow("streams:number", "%zu streams, the files have %zu", ids.size(), totalStreams);
  }
  c.check(multi.getRecordCount() == totalRecords, "records:number", "%u records, the files have %zu", multi.getRecordCount(), totalRecords);
  c.check(multi.getTotalSourceSize() == totalSize, "size", "%lld, the files %lld", (long long)multi.getTotalSourceSize(), (long long)totalSize);
  c.check(multi.isOpened(), "opened", "not opened");
  // which file a record is in
  auto fileOf = [&](const Info* info) -> size_t {
    for (size_t i = 0; i < readers.size(); i++) {
      auto& index = readers[i]->getIndex();
      if (!index.empty() && !less<const Info*>()(info, index.data()) && less<const Info*>()(info, index.data() + index.size())) {
        return i;
      }
    }
    c.failNow("records:alien", "a record of no file: %p", (const void*)info);
  };
  // the merged list
  set<const Info*> seen;
  map<pair<size_t, StreamId>, StreamId> unique; // file and stream -> unique id
  map<StreamId, pair<size_t, StreamId>> origin;
  vector<const Info*> all;
  size_t ties = 0;
  for (uint32_t i = 0; i < totalRecords; i++) {
    auto* info = multi.getRecord(i);
    if (info == nullptr) {
      c.failNow("records:null", "record %u of %zu", i, totalRecords);
    }
    size_t f = fileOf(info);
    if (!seen.insert(info).second) {
      c.failNow("records:twice", "%s", describe(info).c_str());
    }
    if (!all.empty() && all.back()->timestamp > info->timestamp) {
      c.failNow("records:order", "%s after %s", describe(info).c_str(), describe(all.back()).c_str());
    }
    ties += !all.empty() && all.back()->timestamp == info->timestamp && fileOf(all.back()) != f;
    all.push_back(info);
    StreamId u = multi.getUniqueStreamId(info);
    auto where = make_pair(f, info->streamId);
    auto known = unique.emplace(where, u);
    if (known.first->second != u) {
      c.failNow("ids:several", "stream %s of file %zu is %s and %s", info->streamId.getNumericName().c_str(), f, u.getNumericName().c_str(), known.first->second.getNumericName().c_str());
    }
    auto back = origin.emplace(u, where);
    if (back.first->second != where) {
      c.failNow("ids:shared", "%s is stream %s of file %zu and stream %s of file %zu", u.getNumericName().c_str(), info->streamId.getNumericName().c_str(), f, back.first->second.second.getNumericName().c_str(), back.first->second.first);
    }
    if (u.getTypeId() != info->streamId.getTypeId() || ids.find(u) == ids.end()) {
      c.failNow("ids:unknown", "%s is called %s", info->streamId.getNumericName().c_str(), u.getNumericName().c_str());
    }
    if (multi.getRecordIndex(info) != i) {
      c.failNow("lookup:getRecordIndex", "%u for record %u, %s", multi.getRecordIndex(info), i, describe(info).c_str());
    }
    if (multi.getRecordSize(i) != readers[f]->getRecordSize(readers[f]->getRecordIndex(info))) {
      c.failNow("lookup:getRecordSize", "%u for record %u", multi.getRecordSize(i), i);
    }
  }
  c.count("ties_between_files", ties);
  c.check(multi.getRecord(static_cast<uint32_t>(totalRecords)) == nullptr, "records:more", "a record after the last");
  c.check(multi.getRecordIndex(nullptr) == totalRecords, "lookup:getRecordIndex(null)", "%u", multi.getRecordIndex(nullptr));
  if (!single.empty() && single[0]->getRecordCount() > 0 && files.size() > 1) {
    auto* foreign = &single[0]->getIndex()[r.below(single[0]->getRecordCount())];
    c.check(multi.getRecordIndex(foreign) == totalRecords, "lookup:getRecordIndex(foreign)", "%u", multi.getRecordIndex(foreign));
    c.check(multi.readRecord(*foreign) != 0, "read:foreign", "a record of another reader was read");
  }
  // the order inside each file's streams is that of the file
  {
    map<StreamId, size_t> next;
    for (auto* info : all) {
      size_t f = fileOf(info);
      StreamId u = unique[{f, info->streamId}];
      auto& own = single[f]->getIndex(info->streamId);
      size_t k = next[u]++;
      if (k >= own.size() || !sameInfo(own[k], info)) {
        c.failNow("records:stream-order", "stream %s: %s, its file has %s", u.getNumericName().c_str(), describe(info).c_str(), k < own.size() ? describe(own[k]).c_str() : "no more");
      }
    }
    for (size_t f = 0; f < files.size(); f++) {
      for (auto id : single[f]->getStreams()) {
        auto u = unique.find({f, id});
        size_t had = u == unique.end() ? 0 : next[u->second];
        if (had != single[f]->getIndex(id).size()) {
          c.failNow("records:missing", "stream %s of file %zu: %zu of %zu records", id.getNumericName().c_str(), f, had, single[f]->getIndex(id).size());
        }
      }
    }
  }
  // streams without records: whichever ids are left, by type; they are told apart by their tags
  map<StreamId, pair<size_t, StreamId>> judged = origin;
  {
    vector<pair<size_t, StreamId>> missing;
    for (size_t f = 0; f < files.size(); f++) {
      for (auto id : single[f]->getStreams()) {
        if (unique.find({f, id}) == unique.end()) {
          missing.emplace_back(f, id);
        }
      }
    }
    for (auto u : ids) {
      if (origin.find(u) == origin.end()) {
        auto& tags = multi.getTags(u);
        auto match = find_if(missing.begin(), missing.end(), [&](auto& m) {
          auto& t = single[m.first]->getTags(m.second);
          return m.second.getTypeId() == u.getTypeId() && t.vrs == tags.vrs && t.user == tags.user;
        });
        if (match == missing.end()) {
          c.failNow("ids:empty-stream", "%s, without records, is no stream of the files", u.getNumericName().c_str());
        }
        judged[u] = *match;
        missing.erase(match);
        c.count("streams_without_records");
      }
    }
  }
  size_t renamed = 0;
  for (auto& j : judged) {
    renamed += j.first != j.second.second;
  }
  c.count("renamed_streams", renamed);
  c.count("streams", totalStreams);
  c.count("records", totalRecords);
  // file tags: one of the values
  {
    set<string> names;
    for (auto& s : single) {
      for (auto& t : s->getTags()) {
        names.insert(t.first);
      }
    }
    c.check(multi.getTags().size() == names.size(), "tags:file", "%zu tags, the files have %zu", multi.getTags().size(), names.size());
    for (auto& name : names) {
      bool ok = false;
      for (auto& s : single) {
        auto t = s->getTags().find(name);
        ok |= t != s->getTags().end() && t->second == multi.getTag(name);
      }
      c.check(ok, "tags:file", "tag '%s' is '%s'", vh::printable(name).c_str(), vh::printable(multi.getTag(name)).c_str());
    }
  }
  if (files.size() > 1) {
    auto chunks = multi.getFileChunks();
    c.check(chunks.size() == files.size(), "chunks", "%zu for %zu files", chunks.size(), files.size());
    for (size_t f = 0; f < chunks.size() && f < files.size(); f++) {
      c.check((chunks[f].first == files[f].path || chunks[f].first.find("\"chunks\"") != string::npos) && chunks[f].second == single[f]->getTotalSourceSize(), "chunks", "%s %lld", chunks[f].first.c_str(), (long long)chunks[f].second);
    }
  } else {
    c.check(multi.getFileChunks() == single[0]->getFileChunks(), "chunks", "differ for a single file");
  }
  // questions
  auto anyTime = [&]() -> double {
    if (all.empty() || r.chance(0.1)) {
      return r.pick({-1e300, 1e300, 0.0, -1.0, 2.5, static_cast<double>(INFINITY), -static_cast<double>(INFINITY)});
    }
    double t = r.pick(all)->timestamp;
    switch (r.below(4)) {
      case 0:
        return t;
      case 1:
        return nextafter(t, r.chance(0.5) ? -1e300 : 1e300);
      default:
        return t + (r.unit() - 0.5) * r.pick({0.001, 0.5, 3.0});
    }
  };
  auto anyType = [&]() { return r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE}); };
  auto nearest = [&](const char* key, const vector<const Info*>& list, const Info* got, double t, double e, Record::Type type) {
    double best = INFINITY;
    for (auto* i : list) {
      if (type == Record::Type::UNDEFINED || i->recordType == type) {
        double d = fabs(i->timestamp - t);
        if (d <= e) {
          best = min(best, d);
        }
      }
    }
    bool ok = got == nullptr ? best == INFINITY : find(list.begin(), list.end(), got) != list.end() && (type == Record::Type::UNDEFINED || got->recordType == type) && fabs(got->timestamp - t) == best;
    c.check(ok, key, "nearest of %.17g within %g (%s): %s, the nearest is at %g", t, e, toString(type).c_str(), describe(got).c_str(), best);
    c.count(got ? "nearest_found" : "nearest_none");
  };
  vector<StreamId> list(ids.begin(), ids.end());
  for (int q = 0; q < 25; q++) {
    double t = anyTime();
    auto at = find_if(all.begin(), all.end(), [&](auto* i) { return i->timestamp >= t; });
    auto* got = multi.getRecordByTime(t);
    c.check(got == (at == all.end() ? nullptr : *at), "lookup:getRecordByTime(t)", "%.17g: %s", t, describe(got).c_str());
    auto type = anyType();
    auto first = find_if(all.begin(), all.end(), [&](auto* i) { return i->recordType == type; });
    auto last = find_if(all.rbegin(), all.rend(), [&](auto* i) { return i->recordType == type; });
    c.check(multi.getFirstRecord(type) == (first == all.end() ? nullptr : *first), "lookup:getFirstRecord", "%s", describe(multi.getFirstRecord(type)).c_str());
    c.check(multi.getLastRecord(type) == (last == all.rend() ? nullptr : *last), "lookup:getLastRecord", "%s", describe(multi.getLastRecord(type)).c_str());
    double e = r.pick({0.0, 0.01, 0.3, 2.0, 1e9});
    auto nt = r.chance(0.3) ? Record::Type::UNDEFINED : anyType();
    if (isfinite(t)) {
      nearest("lookup:nearest", all, multi.getNearestRecordByTime(t, e, {}, nt), t, e, nt);
    }
    if (list.empty()) {
      continue;
    }
    StreamId u = r.pick(list);
    auto [f, id] = judged[u];
    auto& one = *single[f];
    auto& own = multi.getIndex(u);
    auto same = [&](const char* key, const Info* a, const Info* b) {
      c.check(sameInfo(a, b) && (a == nullptr || fileOf(a) == f || files.size() == 1), string("lookup:") + key, "stream %s (%s of file %zu): %s, in the file: %s", u.getNumericName().c_str(), id.getNumericName().c_str(), f, describe(a).c_str(), describe(b).c_str());
      c.count(a ? "found" : "not_found");
    };
    bool sameIndex = own.size() == one.getIndex(id).size();
    for (size_t i = 0; sameIndex && i < own.size(); i++) {
      sameIndex = sameInfo(own[i], one.getIndex(id)[i]);
    }
    c.check(sameIndex, "lookup:getIndex", "stream %s", u.getNumericName().c_str());
    c.check(multi.getRecordCount(u) == one.getRecordCount(id), "lookup:getRecordCount(stream)", "stream %s: %u, %u", u.getNumericName().c_str(), multi.getRecordCount(u), one.getRecordCount(id));
    c.check(multi.getRecordCount(u, type) == one.getRecordCount(id, type), "lookup:getRecordCount(stream,type)", "stream %s: %u, %u", u.getNumericName().c_str(), multi.getRecordCount(u, type), one.getRecordCount(id, type));
    uint32_t n = static_cast<uint32_t>(r.below(own.size() + 2));
    same("getRecord(stream,n)", multi.getRecord(u, n), one.getRecord(id, n));
    same("getRecord(stream,type,n)", multi.getRecord(u, type, n), one.getRecord(id, type, n));
    same("getLastRecord(stream,type)", multi.getLastRecord(u, type), one.getLastRecord(id, type));
    same("getRecordByTime(stream,t)", multi.getRecordByTime(u, t), one.getRecordByTime(id, t));
    same("getRecordByTime(stream,type,t)", multi.getRecordByTime(u, type, t), one.getRecordByTime(id, type, t));
    if (isfinite(t)) {
      vector<const Info*> mine(own.begin(), own.end());
      nearest("lookup:nearest(stream)", mine, multi.getNearestRecordByTime(t, e, u, nt), t, e, nt);
    }
    auto& tags = multi.getTags(u);
    auto& tags1 = one.getTags(id);
    c.check(tags.user == tags1.user && tags.vrs == tags1.vrs, "tags:stream", "stream %s (%s of file %zu)", u.getNumericName().c_str(), id.getNumericName().c_str(), f);
    c.check(multi.getFlavor(u) == one.getFlavor(id), "tags:flavor", "stream %s", u.getNumericName().c_str());
    c.check(multi.getSerialNumber(u) == one.getSerialNumber(id), "tags:serial", "stream %s", u.getNumericName().c_str());
    c.check(multi.getTag(u, "side") == one.getTag(id, "side"), "tags:tag", "stream %s", u.getNumericName().c_str());
    c.check(multi.getOriginalRecordableTypeName(u) == one.getOriginalRecordableTypeName(id), "tags:name", "stream %s", u.getNumericName().c_str());
    c.check(multi.mightContainImages(u) == one.mightContainImages(id), "might:images", "stream %s", u.getNumericName().c_str());
    c.check(multi.mightContainAudio(u) == one.mightContainAudio(id), "might:audio", "stream %s", u.getNumericName().c_str());
    RecordFormatMap fm, fm1;
    multi.getRecordFormats(u, fm);
    one.getRecordFormats(id, fm1);
    bool sameFormats = fm.size() == fm1.size();
    for (auto& x : fm) {
      auto y = fm1.find(x.first);
      sameFormats = sameFormats && y != fm1.end() && x.second.asString() == y->second.asString();
    }
    c.check(sameFormats, "formats", "stream %s", u.getNumericName().c_str());
    c.count("formats", fm.size());
    // searches
    c.check(multi.getStreamForName(u.getNumericName()) == u, "search:name", "%s -> %s", u.getNumericName().c_str(), multi.getStreamForName(u.getNumericName()).getNumericName().c_str());
    auto serial = multi.getSerialNumber(u);
    auto first1 = find_if(ids.begin(), ids.end(), [&](auto x) { return multi.getSerialNumber(x) == serial; }); // the same file may be there twice
    c.check(multi.getStreamForSerialNumber(serial) == *first1, "search:serial", "%s -> %s", u.getNumericName().c_str(), multi.getStreamForSerialNumber(serial).getNumericName().c_str());
    string side = r.pick<string>({"left", "right", "1"});
    auto tid = r.chance(0.5) ? RecordableTypeId::Undefined : u.getTypeId();
    StreamId wanted;
    for (auto x : ids) {
      if ((tid == RecordableTypeId::Undefined || x.getTypeId() == tid) && multi.getTag(x, "side") == side) {
        wanted = x;
        break;
      }
    }
    c.check(multi.getStreamForTag("side", side, tid) == wanted, "search:tag", "%s, expected %s", multi.getStreamForTag("side", side, tid).getNumericName().c_str(), wanted.getNumericName().c_str());
    string flavor = r.pick<string>({"", "a/b", "a/c"});
    vector<StreamId> flavored;
    for (auto x : ids) {
      if ((tid == RecordableTypeId::Undefined || x.getTypeId() == tid) && (flavor.empty() || multi.getFlavor(x) == flavor)) {
        flavored.push_back(x);
      }
    }
    auto got2 = multi.getStreams(tid, flavor);
    sort(got2.begin(), got2.end());
    c.check(got2 == flavored, "search:flavor", "%zu streams, expected %zu", got2.size(), flavored.size());
  }
  // unknown streams
  StreamId nobody{RecordableTypeId::SampleDevice, 9};
  if (ids.find(nobody) == ids.end()) {
    bool none = multi.getRecordCount(nobody) == 0 && multi.getRecord(nobody, 0) == nullptr && multi.getIndex(nobody).empty() && multi.getRecordByTime(nobody, -1e300) == nullptr && multi.getTags(nobody).user.empty() && !multi.mightContainImages(nobody) && !multi.getStreamForName(nobody.getNumericName()).isValid() &&
        multi.getNearestRecordByTime(0, 1e9, nobody) == nullptr && !multi.readFirstConfigurationRecord(nobody);
    c.check(none, "unknown-stream", "something is known of a stream that isn't there");
  }
  // content: the same reads done together, and file by file
  {
    map<StreamId, unique_ptr<Log>> together;
    map<StreamId, unique_ptr<Log>> apart;
    for (auto u : ids) {
      if (r.chance(0.9)) {
        together[u].reset(new Log);
        apart[u].reset(new Log);
        multi.setStreamPlayer(u, together[u].get());
        single[judged[u].first]->setStreamPlayer(judged[u].second, apart[u].get());
      }
    }
    int configs = static_cast<int>(r.below(5));
    if (configs == 0) {
      bool a = multi.readFirstConfigurationRecords(), b = true;
      for (auto& s : single) {
        b = s->readFirstConfigurationRecords() && b;
      }
      c.check(a == b, "config:all", "%d, one by one %d", a, b);
    } else if (configs == 1 && !ids.empty()) {
      auto u = r.pick(list);
      bool a = multi.readFirstConfigurationRecord(u), b = single[judged[u].first]->readFirstConfigurationRecord(judged[u].second);
      c.check(a == b, "config:one", "%d, alone %d", a, b);
    } else if (configs == 2 && !ids.empty()) {
      auto type = r.pick(list).getTypeId();
      bool a = multi.readFirstConfigurationRecordsForType(type), b = true;
      for (auto& s : single) {
        if (s->getStreamForType(type).isValid()) {
          b = s->readFirstConfigurationRecordsForType(type) && b;
        }
      }
      c.check(a == b, "config:type", "%d, one by one %d", a, b);
    }
    auto strategy = r.pick({CachingStrategy::Passive, CachingStrategy::Streaming, CachingStrategy::StreamingBidirectional, CachingStrategy::ReleaseAfterRead});
    bool set = multi.setCachingStrategy(strategy);
    bool set1 = true;
    for (auto& s : single) {
      set1 = s->setCachingStrategy(strategy) && set1;
    }
    c.check(set == set1 && multi.getCachingStrategy() == single[0]->getCachingStrategy(), "caching", "%d, alone %d", set, set1);
    if (r.chance(0.3)) {
      vector<const Info*> some;
      for (auto* i : all) {
        if (r.chance(0.3)) {
          some.push_back(i);
        }
      }
      multi.prefetchRecordSequence(some, r.chance(0.5));
      multi.purgeFileCache();
    }
    vector<size_t> order(all.size());
    for (size_t i = 0; i < order.size(); i++) {
      order[i] = i;
    }
    if (r.chance(0.4)) {
      r.shuffle(order);
      order.resize(min<size_t>(order.size(), 40));
    }
    Collector raw, raw1;
    bool rawReads = r.chance(0.5);
    for (size_t n : order) {
      auto* info = all[n];
      size_t f = fileOf(info);
      auto& one = *single[f];
      auto& twin = one.getIndex()[readers[f]->getRecordIndex(info)];
      int a, b;
      if (rawReads && r.chance(0.3)) {
        a = multi.readRecord(*info, &raw, r.chance(0.5));
        b = one.readRecord(twin, &raw1, false);
        c.count("reads_with_a_player");
      } else {
        a = multi.readRecord(*info);
        b = one.readRecord(twin);
        c.count("reads");
      }
      if (a != b) {
        c.failNow("read:status", "%s: %d, alone %d", describe(info).c_str(), a, b);
      }
    }
    string d = raw.anomalies.empty() && raw1.anomalies.empty() ? diffOrdered(raw1.recs, raw.recs) : "anomaly " + (raw.anomalies.empty() ? raw1.anomalies : raw.anomalies)[0];
    c.check(d.empty(), "read:content", "%s", d.c_str());
    for (auto& p : together) {
      auto& x = p.second->lines;
      auto& y = apart[p.first]->lines;
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) {
        k++;
      }
      if (k < x.size() || k < y.size()) {
        c.failNow("read:blocks", "stream %s: %s, alone: %s", p.first.getNumericName().c_str(), k < x.size() ? x[k].c_str() : "nothing", k < y.size() ? y[k].c_str() : "nothing");
      }
      c.count("lines_compared", x.size());
    }
    for (auto u : ids) {
      multi.setStreamPlayer(u, nullptr);
    }
  }
}
} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  bool rich = c.mode == "rich";
  size_t n = 1 + r.below(r.chance(0.1) ? 8 : 4);
  vector<File> files = makeFiles(c, n, rich);
  if (r.chance(0.05)) {
    files.push_back(r.pick(files)); // twice the same file
    c.count("same_file_twice");
  }
  MultiRecordFileReader multi;
  string sig;
  for (int attempt = 0; attempt < 1 + static_cast<int>(r.below(4)); attempt++) {
    vector<File> some = files;
    r.shuffle(some);
    if (some.size() > 1 && r.chance(0.3)) {
      some.resize(1 + r.below(some.size()));
    }
    vector<string> names{tag_conventions::kCaptureTimeEpoch, tag_conventions::kSessionId};
    if (r.chance(0.4) || attempt > 0) {
      names = r.chance(0.4) ? vector<string>{} : r.chance(0.5) ? vector<string>{"mine"} : names;
      multi.setRelatedFileTags(vector<string>(names));
    }
    bool bad = r.chance(0.2);
    if (bad) {
      File f;
      f.path = c.file("bad");
      f.valid = false;
      switch (r.below(4)) {
        case 0: // no such file
          f.path = c.file("not here");
          break;
        case 1: {
          Bytes b = randomPayload(r, r.below(3000));
          vh::spew(f.path, b.data(), b.size());
          break;
        }
        case 2: {
          Bytes b = vh::slurp(some[0].path);
          b.resize(r.below(80));
          vh::spew(f.path, b.data(), b.size());
          break;
        }
        default:
          f.path = c.tmp; // a folder
      }
      some.insert(some.begin() + static_cast<long>(r.below(some.size() + 1)), f);
    }
    if (some.empty() || r.chance(0.05)) {
      c.check(multi.open(vector<string>{}) != 0, "open:none", "no file was opened");
      c.check(!multi.isOpened(), "open:none", "opened");
    }
    vector<string> paths;
    for (auto& f : some) {
      paths.push_back(f.path);
    }
    int status;
    bool specs = r.chance(0.4);
    if (paths.size() == 1 && r.chance(0.4)) {
      status = specs ? multi.open(FileSpec({paths[0]})) : multi.open(paths[0]);
    } else if (specs) {
      vector<FileSpec> fs;
      for (auto& p : paths) {
        fs.push_back(FileSpec({p}));
      }
      status = multi.open(fs);
    } else {
      status = multi.open(paths);
    }
    int rel = bad ? -1 : some.size() == 1 ? 1 : relation(some, names);
    sig += vh::sf("%zu%c", some.size(), status == 0 ? 'o' : 'r');
    if (bad || rel < 0) {
      c.check(status != 0, bad ? "refuse:bad-file" : "refuse:unrelated", "%zu files were opened", some.size());
      c.count(bad ? "refused_bad" : "refused_unrelated");
    } else if (rel > 0) {
      if (status != 0) {
        c.failNow(attempt > 0 ? "open:again" : "open", "%zu files -> %d (%s), attempt %d", some.size(), status, errorCodeToMessage(status).c_str(), attempt);
      }
    } else {
      c.count(status == 0 ? "partly_told_opened" : "partly_told_refused");
      c.check(status == 0 || status == INVALID_REQUEST, "open", "%zu files -> %d (%s)", some.size(), status, errorCodeToMessage(status).c_str());
    }
    if (status != 0) {
      bool clean = !multi.isOpened() && multi.getStreams().empty() && multi.getRecordCount() == 0 && multi.getRecord(0) == nullptr && multi.getTotalSourceSize() == 0 && multi.getTags().empty() && multi.getFileChunks().empty() &&
          multi.getRecordByTime(0) == nullptr && multi.getFirstRecord(Record::Type::DATA) == nullptr && multi.getReaders().empty();
      c.check(clean, "refused:left-over", "after refusing %zu files, the reader still shows something", some.size());
      continue;
    }
    c.count("opened");
    c.count(vh::sf("opened_%s", some.size() == 1 ? "one" : some.size() == 2 ? "two" : "several"));
    if (attempt > 0) {
      c.count("opened_again");
    }
    verify(c, multi, some, specs);
    sig += vh::sf("s%zur%u", multi.getStreams().size(), multi.getRecordCount());
    if (r.chance(0.3)) { // refused while open, and nothing changes
      uint32_t before = multi.getRecordCount();
      int again = multi.open(files[0].path);
      c.check(again != 0, "open:while-open", "accepted");
      c.check(multi.isOpened() && multi.getRecordCount() == before, "open:while-open", "the reader changed");
    }
    int closed = multi.close();
    c.check(closed == 0, "close", "%d", closed);
    c.check(!multi.isOpened() && multi.getRecordCount() == 0 && multi.getStreams().empty(), "close", "still something after closing");
  }
  c.signature(sig);
}

VH_MAIN()
