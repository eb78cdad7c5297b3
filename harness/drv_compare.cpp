// C17: comparing recordings and their checksums tell equal from different.
// USES: core utils
// WITH: vrsgen plan
#include "plan.h"

#include <tools/vrs/VrsCommand.h>

#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/Validation.h>

#include <cmath>
#include <iostream>
#include <sstream>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {

// a recording to be written as told, ids included
struct Model {
  map<string, string> tags;
  struct St {
    RecordableTypeId type;
    uint16_t instance;
    StreamTags tags;
    vector<Rec> recs; // in order
  };
  vector<St> streams; // ordered by type & instance
};

class Raw : public Recordable {
 public:
  Raw(RecordableTypeId type, const string& flavor) : Recordable(type, flavor) {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  using Recordable::createRecord;
  using Recordable::addTags;
};

struct How2 {
  CompressionPreset preset{CompressionPreset::None};
  bool async{};
  size_t chunkMB{};
  size_t threads{};
  bool splitHead{};
  bool otherIds{};
  bool copied{}; // then copied, with a preset
  CompressionPreset copyPreset{CompressionPreset::None};
  bool noIndex{};
};
How2 randomHow(Rng& r) {
  How2 h;
  h.preset = randomPreset(r, false);
  h.async = r.chance(0.5);
  h.splitHead = h.async && r.chance(0.3);
  h.chunkMB = r.chance(0.3) ? 1 : 0;
  h.threads = r.chance(0.6) ? 0 : 1 + r.below(3);
  h.otherIds = r.chance(0.2);
  h.copied = r.chance(0.3);
  h.copyPreset = randomPreset(r, false);
  h.noIndex = r.chance(0.1);
  return h;
}
string str(const How2& h) {
  return vh::sf("%s%s%s preset=%s chunkMB=%zu threads=%zu%s%s", h.async ? "async" : "sync", h.splitHead ? "+head" : "", h.otherIds ? "+ids" : "", toString(h.preset).c_str(), h.chunkMB, h.threads, h.copied ? (" copied:" + toString(h.copyPreset)).c_str() : "", h.noIndex ? " reindexed" : "");
}

void write(Case& c, const Model& m, const string& path, const How2& h) {
  TemporaryRecordableInstanceIdsResetter resetter;
  vector<unique_ptr<Raw>> raws;
  map<RecordableTypeId, uint16_t> next;
  for (auto& s : m.streams) {
    auto flavor = s.tags.vrs.find(Recordable::getFlavorTagName());
    string f = flavor == s.tags.vrs.end() ? "" : flavor->second;
    // the instances given are those of the model, or the following ones
    while (next[s.type] + 1 < s.instance || (h.otherIds && c.rng.chance(0.3))) {
      Raw skip(s.type, f.empty() ? "x" : f);
      next[s.type]++;
    }
    raws.emplace_back(new Raw(s.type, f));
    next[s.type]++;
    raws.back()->addTags(s.tags);
    raws.back()->setCompression(h.preset);
  }
  RecordFileWriter w;
  for (auto& x : raws) {
    w.addRecordable(x.get());
  }
  w.addTags(m.tags);
  w.setCompressionThreadPoolSize(h.threads);
  string target = h.copied ? path.substr(0, path.size() - 4) + "_first.vrs" : path;
  int status = 0;
  if (h.async) {
    status = h.splitHead ? w.createChunkedFile(target, h.chunkMB) : w.createFileAsync(target);
    if (status == 0 && h.chunkMB > 0) {
      w.setMaxChunkSizeMB(h.chunkMB);
    }
  }
  for (size_t i = 0; i < raws.size(); i++) {
    for (auto& rec : m.streams[i].recs) {
      raws[i]->createRecord(rec.ts, rec.type, rec.ver, DataSource(DataSourceChunk(rec.data)));
    }
  }
  if (status == 0) {
    status = h.async ? w.waitForFileClosed() : w.writeToFile(target);
  }
  if (status != 0) {
    c.failNow("setup", "writing -> %d (%s)", status, str(h).c_str());
  }
  if (h.copied) {
    FilteredFileReader source(target);
    status = source.openFile();
    CopyOptions o(false);
    o.setCompressionPreset(h.copyPreset);
    o.compressionPoolSize = h.threads;
    status = status ? status : filterCopy(source, path, o);
    if (status != 0) {
      c.failNow("setup", "copying -> %d", status);
    }
  }
  if (h.noIndex && h.chunkMB == 0 && !h.splitHead) { // as if interrupted: the index has to be made again
    Layout l;
    string problem = layoutOf(path, l);
    if (!problem.empty()) {
      c.failNow("setup", "layout: %s", problem.c_str());
    }
    int64_t end = l.descriptionEnd;
    for (auto& p : l.records) {
      end = max(end, p.end);
    }
    Bytes b = vh::slurp(path);
    if (!l.records.empty() && static_cast<int64_t>(b.size()) > end) {
      vh::spew(path, b.data(), static_cast<size_t>(end));
      c.count("reindexed");
    }
  }
}

Model randomModel(Case& c) {
  auto& r = c.rng;
  Model m;
  m.tags = randomTags(r, 4);
  vector<RecordableTypeId> types{RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::SlamCameraData, RecordableTypeId::ForwardCameraRecordableClass};
  size_t n = r.chance(0.05) ? 0 : 1 + r.below(5);
  map<RecordableTypeId, uint16_t> next;
  vector<RecordableTypeId> chosen;
  for (size_t i = 0; i < n; i++) {
    chosen.push_back(r.pick(types));
  }
  sort(chosen.begin(), chosen.end());
  for (auto t : chosen) {
    Model::St s;
    s.type = t;
    s.instance = next[t] += r.chance(0.8) ? 1 : 2;
    Raw raw(t, isARecordableClass(t) ? "a/b" : r.chance(0.3) ? "f" : "");
    s.tags.vrs = raw.getStreamTags().vrs; // with a serial number of its own
    s.tags.user = randomTags(r, 3);
    m.streams.push_back(s);
  }
  int timing = static_cast<int>(r.below(3));
  size_t records = n == 0 ? 0 : r.chance(0.1) ? 0 : r.skewed(50);
  vector<Bytes> same{randomPayload(r, 8), randomPayload(r, 200)};
  for (size_t i = 0; i < records; i++) {
    auto& s = r.pick(m.streams);
    auto& st = const_cast<Model::St&>(s);
    Rec rec;
    rec.type = r.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION});
    rec.ver = 1 + static_cast<uint32_t>(r.below(3));
    rec.ts = timing == 0 ? static_cast<double>(r.below(4)) : timing == 1 ? r.unit() * 10 : static_cast<double>(i) * 0.1;
    rec.data = r.chance(0.2) ? r.pick(same) : r.chance(0.1) ? Bytes{} : randomPayload(r, randomSize(r, 500));
    st.recs.push_back(rec);
  }
  for (auto& s : m.streams) {
    stable_sort(s.recs.begin(), s.recs.end(), [](const Rec& a, const Rec& b) { return a.ts < b.ts; });
  }
  return m;
}

string view(const Model& m) {
  string all;
  for (auto& t : m.tags) {
    all += vh::sf("%zu %s %zu %s,", t.first.size(), t.first.c_str(), t.second.size(), t.second.c_str());
  }
  for (auto& s : m.streams) {
    all += vh::sf("| %d ", static_cast<int>(s.type));
    for (auto* tags : {&s.tags.vrs, &s.tags.user}) {
      for (auto& t : *tags) {
        all += vh::sf("%zu %s %zu %s,", t.first.size(), t.first.c_str(), t.second.size(), t.second.c_str());
      }
      all += ";";
    }
    for (auto& x : s.recs) {
      all += vh::sf("%.17g %d %u %zu %016llx,", x.ts, static_cast<int>(x.type), x.ver, x.data.size(), (unsigned long long)vh::fnv(x.data.data(), x.data.size()));
    }
  }
  return all;
}

// one difference; returns what it is, or "" when it can't be made
string change(Case& c, Model& m) {
  auto& r = c.rng;
  vector<pair<size_t, size_t>> at;
  for (size_t i = 0; i < m.streams.size(); i++) {
    for (size_t k = 0; k < m.streams[i].recs.size(); k++) {
      at.emplace_back(i, k);
    }
  }
  auto resort = [](Model::St& s) {
    stable_sort(s.recs.begin(), s.recs.end(), [](const Rec& a, const Rec& b) { return a.ts < b.ts; });
  };
  auto changeTags = [&](map<string, string>& tags) -> string {
    switch (r.below(4)) {
      case 0: {
        string n = "new" + randomText(r, 5);
        tags[n] = randomText(r, 5);
        return "tag added";
      }
      case 1: {
        if (tags.empty()) {
          return "";
        }
        auto i = tags.begin();
        advance(i, r.below(tags.size()));
        tags.erase(i);
        return "tag removed";
      }
      case 2: {
        if (tags.empty()) {
          return "";
        }
        auto i = tags.begin();
        advance(i, r.below(tags.size()));
        string v = i->second, n = i->first + "x";
        tags.erase(i);
        tags[n] = v;
        return "tag renamed";
      }
      default: {
        if (tags.empty()) {
          return "";
        }
        auto i = tags.begin();
        advance(i, r.below(tags.size()));
        if (!i->second.empty() && r.chance(0.5)) {
          i->second[r.below(i->second.size())] ^= 1;
          if (i->second.find('\0') != string::npos) {
            return "";
          }
        } else {
          i->second += r.pick<string>({" ", "x", "0"});
        }
        return "tag value";
      }
    }
  };
  switch (r.below(18)) {
    case 0:
    case 1: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      auto& d = m.streams[i].recs[k].data;
      if (d.empty()) {
        d.push_back(0);
        return "payload longer";
      }
      d[r.pick<size_t>({0, d.size() - 1, static_cast<size_t>(r.below(d.size()))})] ^= static_cast<uint8_t>(1u << r.below(8));
      return "payload byte";
    }
    case 2: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      auto& d = m.streams[i].recs[k].data;
      if (d.empty() || r.chance(0.5)) {
        d.insert(d.begin() + static_cast<long>(r.below(d.size() + 1)), static_cast<uint8_t>(r.below(2)));
        return "payload longer";
      }
      d.erase(d.begin() + static_cast<long>(r.below(d.size())));
      return "payload shorter";
    }
    case 3:
    case 4: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      double& t = m.streams[i].recs[k].ts;
      double was = t;
      t = r.chance(0.4) ? nextafter(t, r.chance(0.5) ? 1e300 : -1e300) : r.chance(0.5) ? r.pick(at).first * 1.0 : t + r.unit() * 5 - 2.5;
      if (t == was) {
        return "";
      }
      resort(m.streams[i]);
      return "timestamp";
    }
    case 5: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      m.streams[i].recs[k].ver ^= 1u << r.below(r.chance(0.5) ? 3 : 32);
      return "format version";
    }
    case 6:
    case 7: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.chance(0.2) ? at.back() : r.pick(at);
      m.streams[i].recs.erase(m.streams[i].recs.begin() + static_cast<long>(k));
      return "record missing";
    }
    case 8:
    case 9: {
      if (m.streams.empty()) {
        return "";
      }
      auto& s = m.streams[r.below(m.streams.size())];
      Rec rec;
      if (!at.empty() && r.chance(0.6)) {
        auto [i, k] = r.pick(at);
        rec = m.streams[i].recs[k];
        if (r.chance(0.5)) {
          rec.ts = r.pick({1e6, -1e6, 0.0, 2.0, 3.5});
        }
      } else {
        rec.type = r.pick({Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION});
        rec.ts = r.unit() * 10;
        rec.ver = 1;
        rec.data = randomPayload(r, randomSize(r, 100));
      }
      s.recs.push_back(rec);
      resort(s);
      return "record added";
    }
    case 10: {
      if (at.empty() || m.streams.size() < 2) {
        return "";
      }
      auto [i, k] = r.pick(at);
      size_t j = r.below(m.streams.size());
      if (j == i) {
        return "";
      }
      m.streams[j].recs.push_back(m.streams[i].recs[k]);
      m.streams[i].recs.erase(m.streams[i].recs.begin() + static_cast<long>(k));
      resort(m.streams[j]);
      return "record moved to another stream";
    }
    case 11: {
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      auto& t = m.streams[i].recs[k].type;
      t = t == Record::Type::DATA ? r.pick({Record::Type::STATE, Record::Type::CONFIGURATION}) : Record::Type::DATA;
      return "record moved to another type";
    }
    case 12: {
      string what = changeTags(m.tags);
      return what.empty() ? "" : "file " + what;
    }
    case 13: {
      if (m.streams.empty()) {
        return "";
      }
      string what = changeTags(m.streams[r.below(m.streams.size())].tags.user);
      return what.empty() ? "" : "stream " + what;
    }
    case 16: { // same bytes, split differently
      vector<pair<size_t, size_t>> pairs;
      for (auto [i, k] : at) {
        if (k + 1 < m.streams[i].recs.size() && m.streams[i].recs[k].data.size() + m.streams[i].recs[k + 1].data.size() > 0) {
          pairs.emplace_back(i, k);
        }
      }
      if (pairs.empty()) {
        return "";
      }
      auto [i, k] = r.pick(pairs);
      auto &a = m.streams[i].recs[k].data, &b = m.streams[i].recs[k + 1].data;
      vector<uint8_t> all = a;
      all.insert(all.end(), b.begin(), b.end());
      size_t cut = r.chance(0.3) ? r.pick<size_t>({0, all.size()}) : r.chance(0.5) ? b.size() : static_cast<size_t>(r.below(all.size() + 1));
      if (cut == a.size()) {
        return "";
      }
      a.assign(all.begin(), all.begin() + static_cast<long>(cut));
      b.assign(all.begin() + static_cast<long>(cut), all.end());
      return "payload limits";
    }
    case 17: { // same payloads and headers, not the same pairs
      if (at.empty()) {
        return "";
      }
      auto [i, k] = r.pick(at);
      auto [j, l] = r.pick(at);
      auto &a = m.streams[i].recs[k], &b = m.streams[j].recs[l];
      if (a.data == b.data) {
        return "";
      }
      swap(a.data, b.data);
      if (a.type == b.type && i == j && a.ts == b.ts && a.ver == b.ver) {
        return ""; // that's another order of records of a same time
      }
      return "payloads swapped";
    }
    case 14: {
      if (m.streams.empty()) {
        return "";
      }
      auto& tags = m.streams[r.below(m.streams.size())].tags.vrs;
      tags["VRS_extra"] += "y";
      return "vrs tag";
    }
    default: {
      if (m.streams.empty()) {
        return "";
      }
      if (r.chance(0.5)) {
        m.streams.erase(m.streams.begin() + static_cast<long>(r.below(m.streams.size())));
        return "stream missing";
      }
      size_t i = r.below(m.streams.size());
      Model::St s;
      s.type = m.streams[i].type;
      Raw raw(s.type, isARecordableClass(s.type) ? "a/b" : "");
      s.tags.vrs = raw.getStreamTags().vrs;
      while (i + 1 < m.streams.size() && m.streams[i + 1].type == s.type) {
        i++;
      }
      s.instance = static_cast<uint16_t>(m.streams[i].instance + 1);
      m.streams.insert(m.streams.begin() + static_cast<long>(i) + 1, s);
      return "stream added";
    }
  }
}

struct Quiet { // the reports on differences go nowhere
  ostringstream out;
  streambuf *a, *b;
  Quiet() : a{cout.rdbuf(out.rdbuf())}, b{cerr.rdbuf(out.rdbuf())} {}
  ~Quiet() {
    cout.rdbuf(a);
    cerr.rdbuf(b);
  }
};

struct Part { // what of the files is compared
  bool all{true};
  set<size_t> streams; // positions
  set<Record::Type> types{Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION};
  double minTime{numeric_limits<double>::lowest()}, maxTime{numeric_limits<double>::max()};
};
void apply(FilteredFileReader& f, const Part& p) {
  if (p.all) {
    return;
  }
  size_t i = 0;
  set<StreamId> keep;
  for (auto id : f.reader.getStreams()) {
    if (p.streams.count(i++)) {
      keep.insert(id);
    }
  }
  f.filter.streams = keep;
  f.filter.types = p.types;
  f.filter.minTime = p.minTime;
  f.filter.maxTime = p.maxTime;
}
Model partOf(const Model& m, const Part& p) {
  if (p.all) {
    return m;
  }
  Model out;
  out.tags = m.tags;
  for (size_t i = 0; i < m.streams.size(); i++) {
    if (p.streams.count(i)) {
      out.streams.push_back(m.streams[i]);
      auto& recs = out.streams.back().recs;
      recs.erase(remove_if(recs.begin(), recs.end(), [&](auto& x) { return p.types.count(x.type) == 0 || x.ts <= p.minTime || x.ts > p.maxTime; }), recs.end());
    }
  }
  return out;
}
// with the configuration & state records read before starting
Model prerolled(const Model& m, const Part& p) {
  Model out = partOf(m, p);
  if (p.all || p.minTime <= numeric_limits<double>::lowest()) {
    return out;
  }
  size_t n = 0;
  for (size_t i = 0; i < m.streams.size(); i++) {
    if (p.streams.count(i)) {
      vector<Rec> before;
      for (auto& x : m.streams[i].recs) {
        if (x.ts <= p.minTime && x.type != Record::Type::DATA && p.types.count(x.type)) {
          before.push_back(x);
        }
      }
      auto& recs = out.streams[n].recs;
      recs.insert(recs.begin(), before.begin(), before.end());
      n++;
    }
  }
  return out;
}

string sumOf(Case& c, const string& path, const Part& p, CheckType type, bool json) {
  FilteredFileReader f(path);
  int status = f.openFile();
  if (status != 0) {
    c.failNow("setup", "opening -> %d", status);
  }
  apply(f, p);
  CopyOptions o(false);
  o.jsonOutput = json;
  string all = checkRecords(f, o, type);
  if (type == CheckType::Checksums && !json) { // the last line is the checksum of the whole
    auto line = all.rfind('\n');
    return line == string::npos ? all : all.substr(line + 1);
  }
  if (json && type == CheckType::Checksums) { // the names of the others have the actual ids
    auto at = all.find("\"checksum\":\"");
    return at == string::npos ? all : all.substr(at + 12, 16);
  }
  return all;
}

bool compare(Case& c, const string& a, const string& b, const Part& p, const Part& p2) {
  FilteredFileReader x(a), y(b);
  int s1 = x.openFile(), s2 = y.openFile();
  if (s1 != 0 || s2 != 0) {
    c.failNow("setup", "opening -> %d %d", s1, s2);
  }
  apply(x, p);
  apply(y, p2);
  Quiet q;
  return compareVRSfiles(x, y, CopyOptions(false));
}

bool tool(Case& c, const string& a, const string& b) {
  cli::VrsCommand cmd;
  if (!cmd.parseCommand("vrs", "compare")) {
    c.failNow("option-refused", "compare");
  }
  cmd.copyOptions.showProgress = false;
  cmd.processUnrecognizedArgument("vrs", a);
  cmd.processUnrecognizedArgument("vrs", b);
  Quiet q;
  if (!cmd.openVrsFile()) {
    c.failNow("tool-open", "can't open the first file");
  }
  cmd.runCommands();
  string out = q.out.str();
  bool same = out.find("Files are equivalent.") != string::npos;
  bool differ = out.find("Files differ.") != string::npos;
  if (same == differ) {
    c.failNow("tool-answer", "%s", vh::printable(out, 300).c_str());
  }
  return same;
}

void verbatimCase(Case& c) {
  auto& r = c.rng;
  string a = c.file("va"), b = c.file("vb");
  Bytes x = randomPayload(r, r.chance(0.03) ? 5000000 + r.below(9000000) : r.skewed(20000));
  Bytes y = x;
  bool equal = r.chance(0.4);
  if (!equal) {
    size_t n = y.size();
    switch (n == 0 ? 0 : r.below(4)) {
      case 0:
        y.push_back(static_cast<uint8_t>(r.next()));
        break;
      case 1:
        y.pop_back();
        break;
      default:
        y[r.pick<size_t>({0, n - 1, static_cast<size_t>(r.below(n))})] ^= static_cast<uint8_t>(1u << r.below(8));
    }
  }
  vh::spew(a, x.data(), x.size());
  FileSpec s1({a}), s2({b});
  size_t parts = r.chance(0.6) ? 1 : 2 + r.below(3);
  if (parts == 1) {
    vh::spew(b, y.data(), y.size());
  } else { // the same bytes in several chunks
    s2.chunks.clear();
    size_t done = 0;
    for (size_t i = 0; i < parts; i++) {
      size_t n = i + 1 == parts ? y.size() - done : r.below(y.size() - done + 1);
      s2.chunks.push_back(c.file(vh::sf("vb%zu", i)));
      vh::spew(s2.chunks.back(), y.data() + done, n);
      done += n;
    }
  }
  bool same;
  {
    Quiet q;
    same = compareVerbatim(s1, s2, r.chance(0.1));
  }
  c.check(same == equal, equal ? "verbatim:equal" : "verbatim:different", "%zu bytes in one file, %zu in %zu chunks: %d", x.size(), y.size(), parts, same);
  string k1, k2;
  {
    Quiet q;
    k1 = verbatimChecksum(a, false);
    k2 = verbatimChecksum(parts == 1 ? b : s2.toJson(), false);
  }
  c.check((k1 == k2) == equal, equal ? "verbatim-sum:equal" : "verbatim-sum:different", "%zu bytes, %zu in %zu chunks: %s %s", x.size(), y.size(), parts, k1.c_str(), k2.c_str());
  c.count(equal ? "verbatim_equal" : "verbatim_different");
  c.signature(vh::sf("v%zu %zu %d", x.size(), parts, equal));
}

void damagedCase(Case& c) { // a record that can't be read isn't equal to anything
  auto& r = c.rng;
  Model m = randomModel(c);
  string a = c.file("a.vrs"), b = c.file("b.vrs");
  How2 h;
  h.preset = r.pick({CompressionPreset::ZstdLight, CompressionPreset::Lz4Fast});
  write(c, m, a, h);
  write(c, m, b, h);
  Layout l;
  string problem = layoutOf(b, l);
  if (!problem.empty() || l.records.empty()) {
    return;
  }
  auto& at = r.pick(l.records);
  Bytes bytes = vh::slurp(b);
  size_t from = static_cast<size_t>(at.begin) + (r.chance(0.3) ? 0 : 32), to = static_cast<size_t>(at.end);
  if (from >= to) {
    return;
  }
  for (int i = 0; i < 3; i++) {
    bytes[from + r.below(to - from)] ^= static_cast<uint8_t>(1 + r.below(255));
  }
  vh::spew(b, bytes.data(), bytes.size());
  RecordFileReader reader;
  if (reader.openFile(b) != 0) {
    return;
  }
  FileContent content;
  readContent(reader, content);
  bool unreadable = false;
  for (int s : content.readStatus) {
    unreadable |= s != 0;
  }
  if (!unreadable || content.recs.size() != l.content.recs.size()) {
    c.count("damaged_readable");
    return;
  }
  c.count("damaged");
  c.check(!compare(c, a, b, {}, {}), "damaged:compare", "equal to a damaged copy");
  c.check(!compare(c, b, a, {}, {}), "damaged:compare", "a damaged copy is equal");
  c.check(!compare(c, b, b, {}, {}), "damaged:compare", "unreadable records are equal");
  Quiet q;
  string s = recordsChecksum(b, false);
  c.check(s.size() != 16 && s != recordsChecksum(a, false), "damaged:checksum", "%s", s.c_str());
  string k = sumOf(c, b, {}, CheckType::Check, false);
  c.check(k.find("no errors") == string::npos, "damaged:check", "%s", k.c_str());
  string j = sumOf(c, b, {}, CheckType::Check, true);
  c.check(j.find("\"good_file\":false") != string::npos, "damaged:check-json", "%s", j.c_str());
  c.signature(vh::sf("d%zu %zu", content.recs.size(), from));
}
} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  if (r.chance(0.15)) {
    return verbatimCase(c);
  }
  if (r.chance(0.1)) {
    return damagedCase(c);
  }
  string a = c.file("a.vrs");
  Model m = randomModel(c);
  How2 h = randomHow(r);
  write(c, m, a, h);
  string sig = vh::sf("%zu", m.streams.size());
  for (int round = 0; round < 3; round++) {
    string b = c.file(vh::sf("b%d.vrs", round));
    Model m2 = m;
    string what;
    if (r.chance(0.75)) {
      what = change(c, m2);
    }
    string v1 = view(m), v2 = view(m2);
    How2 h2 = randomHow(r);
    write(c, m2, b, h2);
    Part p;
    if (r.chance(0.3)) {
      p.all = false;
      for (size_t i = 0; i < m.streams.size(); i++) {
        if (r.chance(0.7)) {
          p.streams.insert(i);
        }
      }
      if (r.chance(0.5)) {
        p.types.erase(r.pick({Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION}));
      }
      if (r.chance(0.4)) {
        p.minTime = r.unit() * 3;
      }
      if (r.chance(0.4)) {
        p.maxTime = 1 + r.unit() * 9;
      }
      if (p.minTime >= p.maxTime) {
        p.maxTime = p.minTime + 3;
      }
    }
    bool equal = view(partOf(m, p)) == view(partOf(m2, p));
    bool equalBefore = view(prerolled(m, p)) == view(prerolled(m2, p));
    string how = vh::sf("%s%s; first %s, second %s", what.empty() ? "same content" : what.c_str(), p.all ? "" : ", a part", str(h).c_str(), str(h2).c_str());
    const char* kind = what.empty() ? "same" : what.c_str();
    for (bool reverse : {false, true}) {
      bool same = reverse ? compare(c, b, a, p, p) : compare(c, a, b, p, p);
      if (equal != equalBefore) {
        c.count("only_the_preroll_differs");
        continue;
      }
      if (same != equal) {
        c.failNow(vh::sf("compare:%s", equal ? "equal" : kind), "%s: the comparison says %s, %s (%zu streams)", how.c_str(), same ? "equal" : "different", reverse ? "reversed" : "in order", m.streams.size());
      }
      c.count(equal ? (what.empty() ? "compared_equal" : "compared_equal_part") : "compared_different");
    }
    if (!what.empty() && !equal) {
      c.count("difference:" + what);
    }
    if (p.all && r.chance(0.15)) {
      c.check(tool(c, a, b) == equal, equal ? "tool:equal" : "tool:different", "%s", how.c_str());
      c.count("by_the_tool");
    }
    // configuration and state records are only read before starting if there is a record after the start
    auto starts = [&](const Model& x) {
      return p.all || p.minTime <= numeric_limits<double>::lowest() || any_of(x.streams.begin(), x.streams.end(), [&](auto& s) { return !s.recs.empty() && s.recs.back().ts > p.minTime; });
    };
    if (equal == equalBefore && starts(m) && starts(m2)) {
      bool json = r.chance(0.2);
      auto type = r.pick({CheckType::Checksum, CheckType::Checksum, CheckType::Checksums});
      json &= type == CheckType::Checksums;
      string k1, k2;
      {
        Quiet q;
        if (p.all && !json && type == CheckType::Checksum && r.chance(0.5)) {
          k1 = recordsChecksum(a, false);
          k2 = recordsChecksum(b, false);
        } else {
          k1 = sumOf(c, a, p, type, json);
          k2 = sumOf(c, b, p, type, json);
        }
      }
      if ((k1.size() != 16 || k1.find_first_not_of("0123456789abcdef") != string::npos)) {
        c.failNow("checksum:none", "%s", k1.c_str());
      }
      if ((k1 == k2) != equal) {
        c.failNow(vh::sf("checksum:%s", equal ? "equal" : kind), "%s: %s, %s", how.c_str(), k1.c_str(), k2.c_str());
      }
      c.count(equal ? "checksums_equal" : "checksums_different");
    }
    {
      Quiet q;
      string k = sumOf(c, b, p, CheckType::Check, r.chance(0.3));
      c.check(k.find("no errors") != string::npos || k.find("\"good_file\":true") != string::npos, "check", "%s", k.c_str());
      c.count("checked");
    }
    sig += what.empty() ? "=" : what.substr(0, 12);
  }
  c.signature(sig + vh::sf("%016llx", (unsigned long long)vh::fnvs(view(m))));
}

VH_MAIN()
