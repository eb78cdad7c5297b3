// C07: every way to look records up agrees with a plain search of the complete list of records; jumping around
// delivers what playing the file delivers. One reader object goes through several files.
// WITH: vrsgen plan
#include "plan.h"

#include <cmath>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
using Info = IndexRecord::RecordInfo;

string name(const Info* p, const RecordFileReader& r) {
  if (p == nullptr) {
    return "no record";
  }
  const auto& index = r.getIndex();
  if (index.empty() || p < index.data() || p >= index.data() + index.size()) {
    return "a record out of the index";
  }
  return vh::sf("record #%zu (%s %s ts=%.17g)", static_cast<size_t>(p - index.data()), p->streamId.getNumericName().c_str(), toString(p->recordType).c_str(), p->timestamp);
}

struct Model {
  const RecordFileReader& reader;
  vector<const Info*> all;
  explicit Model(const RecordFileReader& r) : reader{r} {
    for (auto& i : r.getIndex()) {
      all.push_back(&i);
    }
  }
  using Filter = function<bool(const Info&)>;
  vector<const Info*> find(const Filter& f) const {
    vector<const Info*> v;
    for (auto* i : all) {
      if (f(*i)) {
        v.push_back(i);
      }
    }
    return v;
  }
  const Info* nth(const Filter& f, size_t n) const {
    auto v = find(f);
    return n < v.size() ? v[n] : nullptr;
  }
};

struct File {
  string path;
  set<StreamId> ids;
  map<StreamId, StreamTags> tags;
  vector<Rec> expected; // what was handed in, in playback order
  size_t tagRecords{};
};

File record(Case& c, size_t number) {
  auto& r = c.rng;
  File f;
  f.path = c.file(vh::sf("f%zu.vrs", number));
  size_t nStreams = r.below(12) == 0 ? 0 : 1 + r.below(6);
  vector<unique_ptr<Stream>> streams;
  static const char* flavors[] = {"", "a/b", "a/c", "x"};
  auto types = vector<RecordableTypeId>{RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::ForwardCameraRecordableClass, RecordableTypeId::SlamCameraData};
  for (size_t i = 0; i < nStreams; i++) {
    auto type = r.pick(types);
    string flavor = flavors[r.below(4)];
    if (isARecordableClass(type) && flavor.empty()) {
      flavor = "a/b";
    }
    streams.emplace_back(new Stream(type, flavor));
    auto& s = *streams.back();
    s.autoConfig = r.chance(0.7);
    s.autoState = r.chance(0.7);
    s.autoTs = r.chance(0.5) ? 0 : -1;
    s.setCompression(randomPreset(r, false));
    for (const char* tag : {"side", "id"}) {
      if (r.chance(0.6)) {
        s.setTag(tag, r.pick<string>({"left", "right", "1"}));
      }
    }
  }
  RecordFileWriter w;
  size_t early = r.chance(0.3) ? r.below(nStreams + 1) : nStreams;
  bool async = early < nStreams || r.chance(0.5);
  for (size_t i = 0; i < early; i++) {
    w.addRecordable(streams[i].get());
  }
  int timing = static_cast<int>(r.below(4));
  double last = r.pick({0.0, -3.0, 1e9});
  auto addSome = [&](size_t streamsNow) {
    size_t n = r.chance(0.1) ? 0 : r.skewed(60);
    for (size_t i = 0; i < n && streamsNow > 0; i++) {
      double ts;
      switch (timing) {
        case 0:
          ts = last += r.unit();
          break;
        case 1:
          ts = last += static_cast<double>(r.below(3)) * 0.5;
          break;
        case 2:
          ts = (last += 0.1) + r.unit() * 3;
          break;
        default:
          ts = static_cast<double>(r.below(5));
      }
      auto type = r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE});
      streams[r.below(streamsNow)]->add(ts, type, 1 + static_cast<uint32_t>(r.below(3)), randomPayload(r, randomSize(r, 400)));
    }
  };
  int status;
  if (!async) {
    addSome(nStreams);
    status = w.writeToFile(f.path);
  } else {
    status = r.chance(0.3) ? w.createChunkedFile(f.path, r.below(2)) : w.createFileAsync(f.path);
    for (size_t i = early; i < nStreams; i++) {
      if (r.chance(0.5)) {
        addSome(i);
        w.writeRecordsAsync(last);
      }
      w.addRecordable(streams[i].get());
      f.tagRecords++;
    }
    addSome(nStreams);
    status = status ? status : w.waitForFileClosed();
  }
  if (status != 0) {
    c.failNow("record-failed", "recording -> %d", status);
  }
  for (auto& s : streams) {
    f.ids.insert(s->getStreamId());
    f.tags[s->getStreamId()] = s->getStreamTags();
    f.expected.insert(f.expected.end(), s->log.begin(), s->log.end());
  }
  sortPlayback(f.expected);
  return f;
}

void verify(Case& c, RecordFileReader& reader, const File& f) {
  auto& r = c.rng;
  Model m(reader);
  const auto& index = reader.getIndex();
  // the list itself
  {
    vector<tuple<double, StreamId, Record::Type>> e, g;
    for (auto& x : f.expected) {
      e.emplace_back(x.ts, x.id, x.type);
    }
    for (auto& x : index) {
      g.emplace_back(x.timestamp, x.streamId, x.recordType);
    }
    if (!is_sorted(index.begin(), index.end(), [](const Info& a, const Info& b) { return a.timestamp < b.timestamp; })) {
      c.failNow("index-not-sorted", "%zu records", index.size());
    }
    sort(e.begin(), e.end());
    sort(g.begin(), g.end());
    if (e != g) {
      c.failNow("index-differs", "%zu records recorded, %zu in the index (or others)", e.size(), g.size());
    }
    if (reader.getStreams() != f.ids) {
      c.failNow("streams-differ", "%zu streams recorded, %zu read", f.ids.size(), reader.getStreams().size());
    }
  }
  vector<StreamId> ids(f.ids.begin(), f.ids.end());
  auto anyId = [&]() -> StreamId {
    if (ids.empty() || r.chance(0.08)) {
      return r.pick<StreamId>({StreamId{RecordableTypeId::UnitTest1, 60000}, StreamId{}, StreamId{RecordableTypeId::SampleDevice, 1}});
    }
    return r.pick(ids);
  };
  auto anyType = [&]() { return r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE}); };
  auto anyTime = [&]() -> double {
    if (index.empty() || r.chance(0.1)) {
      return r.pick({-1e300, 1e300, 0.0, -1.0, 2.5, static_cast<double>(INFINITY), -static_cast<double>(INFINITY)});
    }
    double t = r.pick(index).timestamp;
    switch (r.below(4)) {
      case 0:
        return t;
      case 1:
        return nextafter(t, r.chance(0.5) ? -1e300 : 1e300);
      default:
        return t + (r.unit() - 0.5) * r.pick({0.001, 0.5, 3.0});
    }
  };
  auto same = [&](const char* key, const Info* got, const Info* want, const string& call) {
    if (got != want) {
      c.failNow(string("lookup:") + key, "%s -> %s, expected %s of %zu", call.c_str(), name(got, reader).c_str(), name(want, reader).c_str(), index.size());
    }
    c.count(string("lookup:") + key);
    c.count(want ? "found" : "not_found");
  };
  auto number = [&](const char* key, double got, double want, const string& call) {
    if (!(got == want)) {
      c.failNow(string("value:") + key, "%s -> %.17g, expected %.17g", call.c_str(), got, want);
    }
    c.count(string("value:") + key);
  };
  auto stream = [&](const char* key, StreamId got, const vector<StreamId>& matches, size_t n, const string& call) {
    bool ok = n < matches.size() ? got == matches[n] : !got.isValid();
    if (!ok) {
      c.failNow(string("stream:") + key, "%s -> %s, expected %s", call.c_str(), got.getNumericName().c_str(), n < matches.size() ? matches[n].getNumericName().c_str() : "no stream");
    }
    c.count(string("stream:") + key);
  };
  auto streamsWhere = [&](const function<bool(StreamId)>& p) {
    vector<StreamId> v;
    for (auto id : ids) {
      if (p(id)) {
        v.push_back(id);
      }
    }
    return v;
  };
  auto tagOf = [&](StreamId id, const string& t) {
    auto& u = f.tags.at(id).user;
    auto i = u.find(t);
    return i == u.end() ? string() : i->second;
  };
  auto flavorOf = [&](StreamId id) {
    auto& u = f.tags.at(id).vrs;
    auto i = u.find(Recordable::getFlavorTagName());
    return i == u.end() ? string() : i->second;
  };
  map<pair<StreamId, Record::Type>, uint32_t> next; // sequential walks, interleaved
  for (size_t q = 0, n = 40 + r.below(160); q < n; q++) {
    StreamId id = anyId();
    Record::Type type = anyType();
    double t = anyTime();
    string at = vh::sf("%s %s %.17g", id.getNumericName().c_str(), toString(type).c_str(), t);
    switch (r.below(20)) {
      case 0: {
        uint32_t i = static_cast<uint32_t>(r.below(index.size() + 3));
        same("getRecord(n)", reader.getRecord(i), i < m.all.size() ? m.all[i] : nullptr, vh::sf("%u", i));
        break;
      }
      case 1: {
        auto want = m.find([&](const Info& i) { return i.streamId == id; });
        uint32_t i = static_cast<uint32_t>(r.below(want.size() + 2));
        same("getRecord(stream,n)", reader.getRecord(id, i), i < want.size() ? want[i] : nullptr, vh::sf("%s %u", at.c_str(), i));
        break;
      }
      case 2:
      case 3:
      case 4: {
        auto want = m.find([&](const Info& i) { return i.streamId == id && i.recordType == type; });
        uint32_t& walk = next[{id, type}];
        uint32_t i = r.chance(0.6) ? walk : static_cast<uint32_t>(r.below(want.size() + 2));
        same("getRecord(stream,type,n)", reader.getRecord(id, type, i), i < want.size() ? want[i] : nullptr, vh::sf("%s %u", at.c_str(), i));
        walk = i < want.size() ? i + 1 : 0;
        break;
      }
      case 5: {
        auto want = m.find([&](const Info& i) { return i.streamId == id && i.recordType == type; });
        same("getLastRecord", reader.getLastRecord(id, type), want.empty() ? nullptr : want.back(), at);
        break;
      }
      case 6:
        same("getRecordByTime(t)", reader.getRecordByTime(t), m.nth([&](const Info& i) { return i.timestamp >= t; }, 0), at);
        break;
      case 7:
        same("getRecordByTime(type,t)", reader.getRecordByTime(type, t), m.nth([&](const Info& i) { return i.timestamp >= t && i.recordType == type; }, 0), at);
        break;
      case 8:
        same("getRecordByTime(stream,t)", reader.getRecordByTime(id, t), m.nth([&](const Info& i) { return i.timestamp >= t && i.streamId == id; }, 0), at);
        break;
      case 9:
        same("getRecordByTime(stream,type,t)", reader.getRecordByTime(id, type, t), m.nth([&](const Info& i) { return i.timestamp >= t && i.streamId == id && i.recordType == type; }, 0), at);
        break;
      case 10:
      case 11:
      case 12: { // nearest: any of the nearest ones will do
        double eps = r.pick({0.0, 1e-6, 0.01, 0.3, 1.0, 10.0, 1e12});
        bool everyStream = r.chance(0.4) || !id.isValid();
        bool everyType = r.chance(0.4);
        auto candidates = m.find([&](const Info& i) { return (everyStream || i.streamId == id) && (everyType || i.recordType == type) && abs(i.timestamp - t) <= eps; });
        double best = INFINITY;
        for (auto* i : candidates) {
          best = min(best, abs(i->timestamp - t));
        }
        auto* got = reader.getNearestRecordByTime(t, eps, everyStream ? StreamId{} : id, everyType ? Record::Type::UNDEFINED : type);
        bool ok = candidates.empty() ? got == nullptr : (count(candidates.begin(), candidates.end(), got) == 1 && abs(got->timestamp - t) == best);
        if (!ok) {
          c.failNow("lookup:nearest", "%s eps %g (%s, %s) -> %s, nearest is %g away", at.c_str(), eps, everyStream ? "all streams" : "stream", everyType ? "all types" : "type", name(got, reader).c_str(), best);
        }
        c.count("lookup:nearest");
        if (candidates.size() > 1) {
          c.count("nearest_among_several");
        }
        break;
      }
      case 13: {
        if (r.chance(0.1)) {
          number("getRecordIndex(null)", reader.getRecordIndex(nullptr), static_cast<double>(index.size()), "");
          number("getRecordStreamIndex(null)", reader.getRecordStreamIndex(nullptr), static_cast<double>(index.size()), "");
        } else if (!m.all.empty()) {
          auto* p = r.pick(m.all);
          number("getRecordIndex", reader.getRecordIndex(p), static_cast<double>(p - index.data()), name(p, reader));
          auto mine = m.find([&](const Info& i) { return i.streamId == p->streamId; });
          number("getRecordStreamIndex", reader.getRecordStreamIndex(p), static_cast<double>(find(mine.begin(), mine.end(), p) - mine.begin()), name(p, reader));
        }
        break;
      }
      case 14: {
        auto mine = m.find([&](const Info& i) { return i.streamId == id; });
        number("getRecordCount(stream)", reader.getRecordCount(id), static_cast<double>(mine.size()), at);
        number("getRecordCount(stream,type)", reader.getRecordCount(id, type), static_cast<double>(count_if(mine.begin(), mine.end(), [&](const Info* i) { return i->recordType == type; })), at);
        number("getRecordCount", reader.getRecordCount(), static_cast<double>(m.all.size()), "");
        if (reader.getIndex(id) != mine) {
          c.failNow("lookup:getIndex(stream)", "%s: %zu records, expected %zu", at.c_str(), reader.getIndex(id).size(), mine.size());
        }
        break;
      }
      case 15: {
        auto data = m.find([&](const Info& i) { return i.recordType == Record::Type::DATA; });
        number("getFirstDataRecordTime", reader.getFirstDataRecordTime(), data.empty() ? 0 : data.front()->timestamp, "");
        number("getLastDataRecordTime", reader.getLastDataRecordTime(), data.empty() ? 0 : data.back()->timestamp, "");
        break;
      }
      case 16: {
        auto tid = r.chance(0.15) ? RecordableTypeId::Undefined : id.getTypeId();
        string flavor = r.pick<string>({"", "a/b", "a/c", "x", "zz"});
        auto ofType = streamsWhere([&](StreamId i) { return i.getTypeId() == tid; });
        size_t k = r.below(ofType.size() + 2);
        if (tid != RecordableTypeId::Undefined) {
          stream("type", reader.getStreamForType(tid, static_cast<uint32_t>(k)), ofType, k, vh::sf("%s %zu", at.c_str(), k));
          auto v = streamsWhere([&](StreamId i) { return i.getTypeId() == tid && flavorOf(i) == flavor; });
          k = r.below(v.size() + 2);
          stream("flavor", reader.getStreamForFlavor(tid, flavor, static_cast<uint32_t>(k)), v, k, vh::sf("%s '%s' %zu", at.c_str(), flavor.c_str(), k));
        }
        auto v = streamsWhere([&](StreamId i) { return (tid == RecordableTypeId::Undefined || i.getTypeId() == tid) && (flavor.empty() || flavorOf(i) == flavor); });
        if (reader.getStreams(tid, flavor) != v) {
          c.failNow("stream:getStreams", "%s '%s': %zu streams, expected %zu", at.c_str(), flavor.c_str(), reader.getStreams(tid, flavor).size(), v.size());
        }
        break;
      }
      case 17: {
        auto tid = r.chance(0.4) ? RecordableTypeId::Undefined : id.getTypeId();
        string tag = r.pick<string>({"side", "id", "none"}), value = r.pick<string>({"left", "right", "1", "zz"});
        auto v = streamsWhere([&](StreamId i) { return (tid == RecordableTypeId::Undefined || i.getTypeId() == tid) && tagOf(i, tag) == value; });
        stream("tag", reader.getStreamForTag(tag, value, tid), v, 0, vh::sf("%s=%s %s", tag.c_str(), value.c_str(), at.c_str()));
        break;
      }
      case 18: {
        if (f.ids.count(id)) {
          string serial = f.tags.at(id).vrs.at(Recordable::getSerialNumberTagName());
          stream("serial", reader.getStreamForSerialNumber(serial), {id}, 0, serial);
          string sub = serial.substr(0, serial.size() - 1);
          stream("serial", reader.getStreamForSerialNumber(sub), {}, 0, sub);
        }
        break;
      }
      default: {
        vector<StreamId> want;
        unsigned typeNumber = static_cast<unsigned>(id.getTypeId()), instance = id.getInstanceId();
        string text;
        if (r.chance(0.4)) {
          text = vh::sf("%u-%u", typeNumber, instance);
          if (f.ids.count(id)) {
            want = {id};
          }
        } else if (r.chance(0.6)) {
          size_t k = r.below(5);
          text = vh::sf("%u+%zu", typeNumber, k);
          auto v = streamsWhere([&](StreamId i) { return i.getTypeId() == id.getTypeId(); });
          if (k > 0 && k <= v.size()) {
            want = {v[k - 1]};
          }
        } else { // nothing like a stream's name
          text = r.pick<string>({vh::sf("%u-", typeNumber), vh::sf("-%u", instance), vh::sf("%u", typeNumber), vh::sf("%u-%ux", typeNumber, instance), vh::sf("%u-%u", typeNumber + 65536, instance),
                                 vh::sf("%u-%u", typeNumber, instance + 65536), vh::sf("%u+%llu", typeNumber, 4294967297ULL), "99999999999999999999-1", "", " ", "+", "-", vh::sf(" %u-%u", typeNumber, instance),
                                 vh::sf("%u--%u", typeNumber, instance), vh::sf("%u+-%u", typeNumber, instance)});
        }
        stream("name", reader.getStreamForName(text), want, 0, "'" + text + "'");
      }
    }
  }
  // sizes on disk
  if (f.tagRecords == 0 && !index.empty() && r.chance(0.3)) {
    Layout lay;
    string e = layoutOf(f.path, lay);
    if (!c.check(e.empty(), "layout", "%s", e.c_str())) {
      return;
    }
    map<size_t, int64_t> sizes;
    for (auto& p : lay.records) {
      sizes[p.rec] = p.end - p.begin;
    }
    for (size_t k = 0; k < 20; k++) {
      uint32_t i = static_cast<uint32_t>(r.below(index.size()));
      bool bounds = r.chance(0.5);
      number("getRecordSize", reader.getRecordSize(i, bounds), static_cast<double>(sizes[i]), vh::sf("%u of %zu", i, index.size()));
    }
    number("getRecordSize", reader.getRecordSize(static_cast<uint32_t>(index.size())), 0, "past the end");
  }
  // content: playing it all, then jumping around
  Collector all;
  for (auto id : ids) {
    reader.setStreamPlayer(id, &all);
  }
  int e = reader.readAllRecords();
  if (e != 0 || all.recs.size() != index.size()) {
    c.failNow("read-all", "readAllRecords -> %d, %zu of %zu records", e, all.recs.size(), index.size());
  }
  string d = diffMultiset(f.expected, all.recs);
  if (!d.empty()) {
    c.failNow("content-differs", "%s", d.c_str());
  }
  for (size_t k = 0; k < min<size_t>(40, index.size()); k++) {
    size_t i = r.below(index.size());
    Collector one;
    switch (r.below(3)) {
      case 0:
        e = reader.readRecord(index[i], &one);
        break;
      case 1:
        e = reader.readRecord(index[i], &one, true);
        break;
      default:
        for (auto id : ids) {
          reader.setStreamPlayer(id, &one);
        }
        e = reader.readRecord(index[i]);
    }
    if (e != 0 || one.recs.size() != 1 || !(one.recs[0] == all.recs[i])) {
      c.failNow("jump-differs", "record %zu alone: status %d, %zu records: %s; while playing: %s", i, e, one.recs.size(), one.recs.empty() ? "" : one.recs[0].str().c_str(), all.recs[i].str().c_str());
    }
    c.count("jumps");
    reader.clearStreamPlayers();
  }
  // first configuration records
  if (r.chance(0.7)) {
    Collector conf;
    StreamId id = anyId();
    vector<const Info*> want;
    int which = static_cast<int>(r.below(3));
    for (auto s : ids) {
      if (which == 0 ? s == id : which == 1 ? true : s.getTypeId() == id.getTypeId()) {
        if (auto* p = m.nth([&](const Info& i) { return i.streamId == s && i.recordType == Record::Type::CONFIGURATION; }, 0)) {
          want.push_back(p);
        }
      }
    }
    bool direct = r.chance(0.5);
    if (!direct) {
      for (auto s : ids) {
        reader.setStreamPlayer(s, &conf);
      }
    }
    StreamPlayer* p = direct ? &conf : nullptr;
    bool ok = which == 0 ? reader.readFirstConfigurationRecord(id, p) : which == 1 ? reader.readFirstConfigurationRecords(p) : reader.readFirstConfigurationRecordsForType(id.getTypeId(), p);
    vector<Rec> recs;
    for (auto* i : want) {
      recs.push_back(all.recs[static_cast<size_t>(i - index.data())]);
    }
    d = diffMultiset(recs, conf.recs);
    c.check(ok == !want.empty() && d.empty(), "first-configurations", "way %d for %s: returned %d for %zu records, %s", which, id.getNumericName().c_str(), ok, want.size(), d.c_str());
    c.count("first_configurations");
    reader.clearStreamPlayers();
  }
  c.maxi("records_in_a_file", static_cast<int64_t>(index.size()));
  c.count("files");
}

} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  RecordFileReader reader;
  string sig;
  for (size_t k = 0, n = 1 + r.below(3); k < n; k++) {
    File f = record(c, k);
    if (r.chance(0.2) && f.tagRecords == 0) { // no index: the reader makes one
      Layout lay;
      string e = layoutOf(f.path, lay);
      if (e.empty() && lay.chunks.size() == 1 && !lay.records.empty()) {
        auto bytes = vh::slurp(f.path);
        // (indexes at the end of the file are cut; others are made incomplete)
        uint64_t at = 0;
        memcpy(&at, bytes.data() + 24, 8);
        if (at > static_cast<uint64_t>(lay.records.back().begin)) {
          truncate(f.path.c_str(), static_cast<off_t>(lay.records.back().end));
          c.count("reindexed");
        }
      }
    }
    int e = reader.openFile(f.path);
    if (e != 0) {
      c.failNow("open-failed", "file %zu -> %d", k, e);
    }
    verify(c, reader, f);
    sig += vh::sf("%zu/%zu,", f.ids.size(), f.expected.size());
    if (r.chance(0.6)) {
      reader.closeFile();
      c.check(reader.getRecordCount() == 0 && reader.getStreams().empty(), "not-closed", "%u records after closing", reader.getRecordCount());
    }
  }
  c.signature(sig);
}
VH_MAIN()
