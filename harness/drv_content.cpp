// C13: content blocks of recordings with record formats, as delivered by RecordFormatStreamPlayer.
// USES: core
// WITH: vrsgen rich
#include "rich.h"

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {
MediaSpec specOf(const ContentBlock& cb) {
  MediaSpec m;
  if (cb.getContentType() == ContentType::IMAGE) {
    auto& s = cb.image();
    m.imf = s.getImageFormat();
    m.pix = s.getPixelFormat();
    m.w = s.getWidth();
    m.h = s.getHeight();
    m.stride = s.getRawStride();
    m.stride2 = s.getRawStride2();
    m.codec = s.getCodecName();
    m.quality = s.getCodecQuality();
    m.keyTs = s.getKeyFrameTimestamp();
    m.keyIndex = s.getKeyFrameIndex();
  } else if (cb.getContentType() == ContentType::AUDIO) {
    auto& s = cb.audio();
    m.auf = s.getAudioFormat();
    m.sample = s.getSampleFormat();
    m.channels = s.getChannelCount();
    m.rate = s.getSampleRate();
    m.samples = s.getSampleCount();
    m.frameStride = s.getSampleFrameStride();
  }
  return m;
}

// Plays records; compares them with what is expected
struct Player : public RecordFormatStreamPlayer {
  Case& c;
  string pass;
  map<const IndexRecord::RecordInfo*, pair<const RichRec*, const Rec*>>* expected{};
  const RichRec* now{}; // the record being read (null: a record that doesn't match its format)
  size_t next{}; // the next block of that record
  bool stopped{}; // we said to stop reading the record
  bool known{}, isConfig{};
  size_t skipped{};
  double stopAt{}; // how often a callback stops reading
  set<StreamId> unsure; // streams whose last configuration record was not read to the end of its metadata
  set<const RichRec*> seen;
  size_t whole{}, blocks{}, cut{};
  StreamId at;
  explicit Player(Case& c) : c(c) {}

  void start(const RichRec* r) {
    now = r;
    next = 0;
    stopped = false;
  }
  bool mayDeliver(size_t index, const char* what) {
    if (stopped) {
      c.fail("block delivered after the reader said stop", "%s: block %zu (%s)", pass.c_str(), index, what);
    }
    return now != nullptr;
  }
  bool judge(Delivered& got, RecordReader& reader) {
    if (next >= now->blocks.size()) {
      c.fail("too many blocks", "%s: block %zu of a record with %zu blocks", pass.c_str(), got.index, now->blocks.size());
      return false;
    }
    const Delivered& e = now->blocks[next++];
    blocks++;
    string d = diffBlock(e, got);
    if (!d.empty()) {
      c.fail("wrong delivery:" + toString(e.type), "%s: stream %s %s record version %u at %g, %zu blocks: %s (remaining %u) [%s]", pass.c_str(), at.getNumericName().c_str(),
             toString(now->rec.type).c_str(), now->rec.ver, now->rec.ts, now->blocks.size(), d.c_str(), reader.getUnreadBytes(), e.origin.c_str());
      stopped = true;
      return false;
    }
    return true;
  }
  // reads some of the block, and tells to stop there
  bool stopHere(const CurrentRecord& r, size_t size) {
    if (stopAt == 0 || !c.rng.chance(stopAt)) {
      return false;
    }
    size_t n = min<size_t>(c.rng.below(size + 1), r.reader->getUnreadBytes());
    if (n > 0) {
      Bytes b(n);
      r.reader->read(b.data(), n);
    }
    cut++;
    stopped = true;
    return true;
  }
  bool take(const CurrentRecord& r, size_t index, const ContentBlock& cb) {
    if (!mayDeliver(index, "content")) {
      // a record that is not what its format says: read what's there
      Bytes b(min<size_t>(r.reader->getUnreadBytes(), cb.getBlockSize()));
      return b.empty() || (r.reader->read(b) == 0 && c.rng.chance(0.8));
    }
    Delivered got;
    got.index = index;
    got.type = cb.getContentType();
    got.media = specOf(cb);
    if (got.type == ContentType::CUSTOM) {
      got.custom = cb.getCustomContentBlockFormat();
    }
    size_t size = cb.getBlockSize();
    if (stopHere(r, min<size_t>(size, 100000))) {
      return false;
    }
    if (size == ContentBlock::kSizeUnknown || size > r.reader->getUnreadBytes()) {
      c.fail("block size", "%s: size of block %zu (%s) is %zd, %u bytes remain", pass.c_str(), index, cb.asString().c_str(), (ssize_t)size, r.reader->getUnreadBytes());
      stopped = true;
      return false;
    }
    got.bytes.resize(size);
    if (size > 0) {
      int s = r.reader->read(got.bytes);
      if (s != 0) {
        c.fail("block read error", "%s: block %zu: %d", pass.c_str(), index, s);
        stopped = true;
        return false;
      }
    }
    if (!judge(got, *r.reader)) {
      return false;
    }
    c.count("blocks:" + toString(got.type));
    return true;
  }
  bool onDataLayoutRead(const CurrentRecord& r, size_t index, DataLayout& l) override {
    if (!mayDeliver(index, "layout")) {
      return c.rng.chance(0.9);
    }
    if (next >= now->blocks.size()) {
      c.fail("too many blocks", "%s: metadata block %zu of a record with %zu blocks", pass.c_str(), index, now->blocks.size());
      return false;
    }
    const Delivered& e = now->blocks[next++];
    blocks++;
    if (e.index != index || e.type != ContentType::DATA_LAYOUT) {
      c.fail("wrong delivery:layout", "%s: metadata block %zu offered instead of block %zu (%s)", pass.c_str(), index, e.index, toString(e.type).c_str());
      stopped = true;
      return false;
    }
    string d = diffLayout(l, e.values);
    if (!d.empty()) {
      c.fail("wrong metadata", "%s: block %zu: %s", pass.c_str(), index, d.c_str());
    }
    c.count("blocks:data_layout");
    if (stopAt > 0 && c.rng.chance(stopAt)) {
      cut++;
      stopped = true;
      return false;
    }
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, b);
  }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, b);
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    return take(r, i, b);
  }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& b) override {
    if (!mayDeliver(i, "unsupported")) {
      return RecordFormatStreamPlayer::onUnsupportedBlock(r, i, b);
    }
    Delivered got;
    got.index = i;
    got.type = b.getContentType();
    got.unsupported = true;
    judge(got, *r.reader);
    return false;
  }
  bool processRecordHeader(const CurrentRecord& r, DataReference& d) override {
    const IndexRecord::RecordInfo* info = r.recordInfo;
    auto f = expected->find(info);
    known = f != expected->end();
    if (!known) {
      c.fail("unknown record", "%s: record %s %s at %g", pass.c_str(), r.streamId.getNumericName().c_str(), toString(r.recordType).c_str(), r.timestamp);
      return false;
    }
    at = r.streamId;
    start(f->second.first);
    isConfig = r.recordType == Record::Type::CONFIGURATION;
    if (!isConfig && unsure.count(at) > 0) {
      now = nullptr;
    }
    if (f->second.second->ts != r.timestamp || f->second.second->type != r.recordType || f->second.second->ver != r.formatVersion) {
      c.fail("wrong record", "%s: record %s at %g", pass.c_str(), toString(r.recordType).c_str(), r.timestamp);
    }
    return RecordFormatStreamPlayer::processRecordHeader(r, d);
  }
  void processRecord(const CurrentRecord& r, uint32_t n) override {
    RecordFormatStreamPlayer::processRecord(r, n);
    if (isConfig) {
      // stopping once all of its metadata was read leaves it as usable as when reading it to its end
      bool metadataLeft = now == nullptr;
      for (size_t k = next; stopped && !metadataLeft && k < now->blocks.size(); k++) {
        metadataLeft = now->blocks[k].type == ContentType::DATA_LAYOUT;
      }
      if (!metadataLeft && stopped) {
        c.count("configurations_stopped_after_metadata");
      }
      if (metadataLeft) {
        unsure.insert(at);
      } else {
        unsure.erase(at);
      }
    } else if (now == nullptr && unsure.count(at) > 0) {
      skipped++;
    }
    if (now != nullptr && !stopped) {
      if (next != now->blocks.size()) {
        c.fail("missing blocks", "%s: %zu blocks of %zu were delivered (%u bytes left)", pass.c_str(), next, now->blocks.size(), r.reader->getUnreadBytes());
      } else if (r.reader->getUnreadBytes() != 0) {
        c.fail("bytes left", "%s: %u bytes left", pass.c_str(), r.reader->getUnreadBytes());
      } else {
        whole++;
      }
    }
  }
};

void runCase(Case& c) {
  auto& r = c.rng;
  RichOptions o;
  o.maxRecords = c.thorough ? 150 : 60;
  o.maxDim = r.chance(0.9) ? 24 : 200;
  RichPlan plan = makeRich(r, o);
  // some records that are not what their format says
  size_t bad = 0;
  vector<pair<RichStream*, Rec>> badRecs;
  if (r.chance(0.4)) {
    for (auto& s : plan.streams) {
      for (size_t n = r.below(4); n > 0 && !s->rich.empty(); n--) {
        const RichRec& m = s->rich[r.below(s->rich.size())];
        if (m.rec.type == Record::Type::CONFIGURATION && r.chance(0.6)) {
          continue;
        }
        Bytes b = m.rec.data;
        if (!b.empty() && r.chance(0.7)) {
          b.resize(r.below(b.size()));
        } else {
          b = randomPayload(r, r.below(200));
        }
        // they share the time range of the others, never exactly a time of another record
        double ts = m.rec.ts + 0.0003 + r.unit() * 0.0004;
        s->add(ts, m.rec.type, m.rec.ver, b);
        badRecs.emplace_back(s.get(), s->log.back());
        bad++;
      }
    }
  }
  string path = c.file("rich.vrs");
  int status = writeRich(plan, path, r.below(3));
  if (!c.check(status == 0, "write", "can't write: %d", status)) {
    return;
  }
  RecordFileReader reader;
  status = reader.openFile(path);
  if (!c.check(status == 0, "open", "can't open: %d", status)) {
    return;
  }
  // which record is which: by stream, type, time and version, in creation order
  map<const IndexRecord::RecordInfo*, pair<const RichRec*, const Rec*>> expected;
  auto ids = reader.getStreams();
  vector<StreamId> sid;
  size_t total = 0;
  for (auto& s : plan.streams) {
    StreamId id = s->getRecordableTypeId() == RecordableTypeId::Undefined ? StreamId{} : StreamId(s->getRecordableTypeId(), s->getRecordableInstanceId());
    // instance ids are numbered in the file by order of creation
    sid.push_back(id);
    total += s->log.size();
  }
  // instance ids of the file: per type, from 1, in the order of the original instance ids
  map<RecordableTypeId, vector<size_t>> byType;
  for (size_t i = 0; i < plan.streams.size(); i++) {
    byType[plan.streams[i]->getRecordableTypeId()].push_back(i);
  }
  for (auto& t : byType) {
    vector<StreamId> inFile;
    for (auto& id : ids) {
      if (id.getTypeId() == t.first) {
        inFile.push_back(id);
      }
    }
    if (!c.check(inFile.size() == t.second.size(), "streams", "%zu streams of type %d instead of %zu", inFile.size(), (int)t.first, t.second.size())) {
      return;
    }
    sort(t.second.begin(), t.second.end(), [&](size_t a, size_t b) { return plan.streams[a]->getRecordableInstanceId() < plan.streams[b]->getRecordableInstanceId(); });
    for (size_t k = 0; k < inFile.size(); k++) {
      sid[t.second[k]] = inFile[k];
    }
  }
  map<const RichRec*, size_t> indexOf; // in the file
  auto& index = reader.getIndex();
  if (!c.check(index.size() == total, "records", "%zu records instead of %zu", index.size(), total)) {
    return;
  }
  for (size_t i = 0; i < plan.streams.size(); i++) {
    auto& s = *plan.streams[i];
    vector<const Rec*> order;
    for (auto& rec : s.log) {
      order.push_back(&rec);
    }
    stable_sort(order.begin(), order.end(), [](const Rec* a, const Rec* b) { return a->ts < b->ts; });
    size_t k = 0;
    for (size_t n = 0; n < index.size(); n++) {
      if (index[n].streamId == sid[i] && k < order.size()) {
        const Rec* rec = order[k++];
        const RichRec* rich = nullptr;
        for (auto& m : s.rich) {
          if (m.rec.ts == rec->ts && m.rec.type == rec->type) {
            rich = &m;
            indexOf[rich] = n;
          }
        }
        expected[&index[n]] = {rich, rec};
      }
    }
  }
  // players
  size_t whole = 0, cut = 0, blocks = 0;
  auto attach = [&](RecordFileReader& rd, vector<unique_ptr<Player>>& players, double stopAt, const string& pass) {
    bool together = r.chance(0.5);
    for (size_t i = 0; i < sid.size(); i++) {
      if (players.empty() || !together) {
        players.push_back(make_unique<Player>(c));
        players.back()->expected = &expected;
        players.back()->stopAt = stopAt;
        players.back()->pass = pass;
      }
      rd.setStreamPlayer(sid[i], players.back().get());
    }
  };
  auto finish = [&](vector<unique_ptr<Player>>& players) {
    for (auto& p : players) {
      whole += p->whole;
      cut += p->cut;
      blocks += p->blocks;
    }
  };
  {
    vector<unique_ptr<Player>> players;
    attach(reader, players, 0, "straight");
    status = reader.readAllRecords();
    c.check(status == 0 || bad > 0, "readAllRecords", "status %d", status);
    finish(players);
    size_t good = 0;
    for (auto& s : plan.streams) {
      good += s->rich.size();
    }
    if (c.failures == 0) {
      size_t skipped = 0;
      for (auto& p : players) {
        skipped += p->skipped;
      }
      c.check(whole <= good && whole + skipped >= good, "records not delivered whole", "%zu (and %zu not judged) of %zu", whole, skipped, good);
    }
    if (c.failures == 0 && r.chance(0.7)) {
      // once more with the same players, after jumps, each record after the configuration record it needs
      for (auto& p : players) {
        p->pass = "jumping";
        p->stopAt = r.pick({0.0, 0.1});
      }
      size_t jumps = 2 + r.below(30);
      for (size_t k = 0; k < jumps && c.failures == 0; k++) {
        size_t i = r.below(plan.streams.size());
        auto& s = *plan.streams[i];
        if (s.rich.empty()) {
          continue;
        }
        const RichRec& m = s.rich[r.below(s.rich.size())];
        if (m.config != SIZE_MAX) {
          Player* pl = nullptr;
          double was = 0;
          for (auto& p : players) { // that one has to be read to its end
            pl = p.get();
            was = pl->stopAt;
            pl->stopAt = 0;
          }
          status = reader.readRecord(index[indexOf[&s.rich[m.config]]]);
          c.check(status == 0, "readRecord", "configuration: status %d", status);
          for (auto& p : players) {
            p->stopAt = was;
          }
        }
        status = reader.readRecord(index[indexOf[&m]]);
        c.check(status == 0, "readRecord", "status %d", status);
        c.count("jumps");
      }
    }
  }
  if (c.failures == 0 && r.chance(0.5)) {
    // reading only part of many records
    RecordFileReader other;
    status = other.openFile(path);
    if (c.check(status == 0, "open", "can't open: %d", status)) {
      map<const IndexRecord::RecordInfo*, pair<const RichRec*, const Rec*>> mine;
      for (size_t n = 0; n < index.size(); n++) {
        mine[&other.getIndex()[n]] = expected[&index[n]];
      }
      expected.swap(mine);
      vector<unique_ptr<Player>> players;
      attach(other, players, 0.25, "partial");
      // most configuration records are read to their end: their description is used by the records after them
      for (size_t n = 0; n < index.size() && c.failures == 0; n++) {
        const auto& info = other.getIndex()[n];
        for (auto& p : players) {
          p->stopAt = info.recordType == Record::Type::CONFIGURATION && r.chance(0.85) ? 0 : 0.25;
        }
        int s = other.readRecord(info);
        c.check(s == 0 || expected[&info].first == nullptr, "readRecord", "status %d", s);
      }
      finish(players);
    }
  }
  c.count("records_whole", static_cast<int64_t>(whole));
  c.count("records_cut", static_cast<int64_t>(cut));
  c.count("malformed_records", static_cast<int64_t>(bad));
  for (auto& s : plan.streams) {
    set<uint32_t> versions;
    for (auto& m : s->rich) {
      if (m.rec.type == Record::Type::CONFIGURATION) {
        versions.insert(m.rec.ver);
      }
    }
    if (versions.size() > 1) {
      c.count("streams_with_two_configuration_versions");
    }
  }
  if (blocks > 0) {
    c.signature(vh::sf("%zu streams %zu records %zu blocks %zu cut", plan.streams.size(), whole, blocks, cut));
  }
}
} // namespace

VH_MAIN()
