// C25: exports and reports. Recordings with every kind of block and hostile texts are exported to JSON and media files,
// and described by the reports; what comes out is parsed back (JSON by a strict validating parser) and compared with
// what was recorded, for random selections of streams, types and times.
// Modes: default (export to JSON and files), report (overviews, listings, JSON descriptions), images (image files).
// USES: core utils
// WITH: vrsgen rich
// OPT: -O1
#include "rich.h"
#include "select.h"

#include <fcntl.h>
#include <unistd.h>

#include <iostream>
#include <regex>
#include <sstream>

#include <png.h>

#include <vrs/RecordFileWriter.h>
#include <vrs/helpers/Rapidjson.hpp>
#include <vrs/utils/DataExtractor.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/RecordFileInfo.h>
#include <vrs/utils/Validation.h>
#include <vrs/utils/cli/DataExtraction.h>
#include <vrs/utils/cli/ListRecords.h>
#include <vrs/utils/cli/PrintRecordFormatRecords.h>
#include <vrs/utils/cli/PrintRecordFormats.h>

using namespace vrs;
using namespace vrs::utils;
using namespace vg;
using namespace std;
using vh::Case;
using vh::Rng;

namespace {

// what is printed, by C and C++ streams
class Capture {
 public:
  explicit Capture(const string& path) : path_{path} {
    fflush(stdout);
    cout.flush();
    saved_ = dup(1);
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    close(fd);
  }
  ~Capture() {
    end();
  }
  string end() {
    if (saved_ >= 0) {
      cout.flush();
      fflush(stdout);
      dup2(saved_, 1);
      close(saved_);
      saved_ = -1;
      auto b = vh::slurp(path_);
      text_.assign(b.begin(), b.end());
    }
    return text_;
  }

 private:
  string path_, text_;
  int saved_{-1};
};

// strict, but for NaN and infinities, which are documented
bool parseJson(JDocument& d, const string& text) {
  using namespace vrs_rapidjson;
  d.Parse<kParseNanAndInfFlag | kParseValidateEncodingFlag | kParseFullPrecisionFlag>(text.c_str(), text.size());
  return !d.HasParseError() && strlen(text.c_str()) == text.size();
}
// successive documents
bool parseAll(const string& text, vector<unique_ptr<JDocument>>& out, size_t& badAt) {
  using namespace vrs_rapidjson;
  StringStream is(text.c_str());
  while (true) {
    while (is.Peek() == '\n' || is.Peek() == ' ') {
      is.Take();
    }
    if (is.Peek() == 0) {
      badAt = is.Tell();
      return badAt == text.size();
    }
    auto d = make_unique<JDocument>();
    badAt = is.Tell();
    d->ParseStream<kParseNanAndInfFlag | kParseValidateEncodingFlag | kParseFullPrecisionFlag | kParseStopWhenDoneFlag>(is);
    if (d->HasParseError()) {
      return false;
    }
    out.push_back(std::move(d));
  }
}

bool plainText(const string& s) {
  for (unsigned char c : s) {
    if (c < 32 || c > 126) {
      return false;
    }
  }
  return true;
}
bool validUtf8(const string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    size_t n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
    if (n > 3 || i + n >= s.size() + (n == 0)) {
      return false;
    }
    uint32_t v = n == 0 ? c : c & (0x3f >> n);
    for (size_t k = 1; k <= n; k++) {
      unsigned char d = static_cast<unsigned char>(s[i + k]);
      if ((d & 0xc0) != 0x80) {
        return false;
      }
      v = v << 6 | (d & 0x3f);
    }
    if ((n == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 3 && (v < 0x10000 || v > 0x10ffff))) {
      return false;
    }
    i += n + 1;
  }
  return true;
}

const char* str(const JValue& v, const char* name) {
  auto it = v.FindMember(name);
  return it != v.MemberEnd() && it->value.IsString() ? it->value.GetString() : nullptr;
}
string text(const JValue& v) {
  return v.IsString() ? string(v.GetString(), v.GetStringLength()) : string();
}

// one field of a metadata block; "" if as recorded
string diffField(const JValue& piece, const Field& f) {
  auto it = piece.FindMember("value");
  bool has = it != piece.MemberEnd();
  bool empty = f.kind == Field::STR ? f.text.empty() : f.kind == Field::VECF ? f.nums.empty() : f.kind == Field::MAPI ? f.map.empty() : false;
  if (!has) {
    return empty ? "" : "no value";
  }
  auto& v = it->value;
  switch (f.kind) {
    case Field::U8:
      return v.IsUint() && v.GetUint() == static_cast<uint8_t>(f.num) ? "" : "other number";
    case Field::U32:
      return v.IsUint() && v.GetUint() == static_cast<uint32_t>(f.num) ? "" : "other number";
    case Field::I64:
      return v.IsInt64() && v.GetInt64() == static_cast<int64_t>(f.num) ? "" : "other number";
    case Field::F64:
      return v.IsNumber() && v.GetDouble() == f.num ? "" : "other number";
    case Field::STR:
      return v.IsString() && (text(v) == f.text || !validUtf8(f.text)) ? "" : "other text";
    case Field::VECF:
    case Field::ARR16: {
      size_t n = f.kind == Field::VECF ? f.nums.size() : f.count;
      if (!v.IsArray() || v.Size() != n) {
        return "other number of values";
      }
      for (size_t i = 0; i < n; i++) {
        double e = i < f.nums.size() ? (f.kind == Field::VECF ? static_cast<float>(f.nums[i]) : static_cast<uint16_t>(f.nums[i])) : 0;
        if (!v[static_cast<vrs_rapidjson::SizeType>(i)].IsNumber() || v[static_cast<vrs_rapidjson::SizeType>(i)].GetDouble() != e) {
          return "other values";
        }
      }
      return {};
    }
    default: {
      if (!v.IsObject() || v.MemberCount() != f.map.size()) {
        return "other number of elements";
      }
      for (auto& e : f.map) {
        if (!validUtf8(e.first)) {
          continue;
        }
        bool found = false;
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) {
          found = found || (text(m->name) == e.first && m->value.IsInt() && m->value.GetInt() == e.second);
        }
        if (!found) {
          return "an element is missing";
        }
      }
      return {};
    }
  }
}
string diffMetadata(const JValue& block, const char* key, const vector<Field>& values) {
  auto it = block.IsObject() ? block.FindMember(key) : JValue::ConstMemberIterator();
  if (!block.IsObject() || it == block.MemberEnd() || !it->value.IsArray()) {
    return "not a metadata block";
  }
  auto& a = it->value;
  if (a.Size() != values.size()) {
    return vh::sf("%u values instead of %zu", a.Size(), values.size());
  }
  for (auto& f : values) {
    size_t n = 0;
    for (auto& p : a.GetArray()) {
      if (p.IsObject() && str(p, "name") && f.label == str(p, "name")) {
        n++;
        string d = diffField(p, f);
        if (!d.empty()) {
          return f.label + ": " + d;
        }
      }
    }
    if (n != 1) {
      return vh::sf("%s: %zu times", f.label.c_str(), n);
    }
  }
  return {};
}

struct Recording {
  RichPlan plan;
  string path;
  map<StreamId, RichStream*> byId;
  Infos infos; // of the file
  vector<const RichRec*> recs; // for each of the infos
  int64_t fileSize{};
  map<StreamId, string> flavors;
  vector<string> chunks;
};

Recording makeRecording(Case& c, size_t maxRecords, bool mayChunk) {
  auto& r = c.rng;
  Recording rec;
  RichOptions o;
  o.maxRecords = maxRecords;
  o.maxDim = 12;
  o.hostileText = r.chance(0.7);
  rec.plan = makeRich(r, o);
  string name = "rec";
  if (r.chance(0.3)) {
    name = hostileText(r, 30);
    for (auto& ch : name) {
      if (ch == '/' || ch == 0) {
        ch = '_';
      }
    }
    name = "f" + name;
  }
  string dir = c.file("src");
  mkdir(dir.c_str(), 0700);
  rec.path = dir + "/" + name + ".vrs";
  int status = writeRich(rec.plan, rec.path);
  if (status != 0) {
    c.failNow("setup", "writeRich -> %d", status);
  }
  auto bytes = vh::slurp(rec.path);
  rec.fileSize = static_cast<int64_t>(bytes.size());
  rec.chunks = {rec.path};
  // (a reader forgets the chunks behind those it needs, which may be all but the first one when there is no record)
  if (mayChunk && r.chance(0.3) && any_of(rec.plan.streams.begin(), rec.plan.streams.end(), [](const auto& s) { return !s->rich.empty(); })) {
    size_t n = 1 + r.below(3), at = 80 + r.below(bytes.size() - 80);
    vh::spew(rec.path, bytes.data(), at);
    for (size_t k = 1; k <= n; k++) {
      size_t next = k == n ? bytes.size() : at + r.below(bytes.size() - at + 1);
      if (next == at) {
        next = k == n ? bytes.size() : min(bytes.size(), at + 1);
      }
      if (next == at) {
        break;
      }
      rec.chunks.push_back(rec.path + vh::sf("_%zu", k));
      vh::spew(rec.chunks.back(), bytes.data() + at, next - at);
      at = next;
    }
  }
  for (auto& s : rec.plan.streams) {
    rec.byId[s->getStreamId()] = s.get();
  }
  return rec;
}

void matchRecords(Case& c, Recording& rec, RecordFileReader& reader) {
  rec.infos = infosOf(reader);
  map<StreamId, size_t> next;
  size_t total = 0;
  for (auto& s : rec.plan.streams) {
    total += s->rich.size();
  }
  if (rec.infos.size() != total) {
    c.failNow("setup", "%zu records instead of %zu", rec.infos.size(), total);
  }
  rec.recs.clear();
  for (auto& id : reader.getStreams()) {
    rec.flavors[id] = reader.getFlavor(id);
  }
  for (auto& i : rec.infos) {
    auto it = rec.byId.find(i.streamId);
    size_t n = next[i.streamId]++;
    if (it == rec.byId.end() || n >= it->second->rich.size() || it->second->rich[n].rec.ts != i.timestamp || it->second->rich[n].rec.type != i.recordType) {
      c.failNow("setup", "unexpected record");
    }
    rec.recs.push_back(&it->second->rich[n]);
  }
}

// a selection that is set directly on the reader
Selection choose(Case& c, FilteredFileReader& f, const Infos& infos) {
  auto& r = c.rng;
  Selection s;
  auto all = f.reader.getStreams();
  if (r.chance(0.4)) {
    set<StreamId> some;
    for (auto& id : all) {
      if (r.chance(0.6)) {
        some.insert(id);
      }
    }
    f.filter.streams = some;
    StreamChoice none;
    none.add = true; // nothing, plus these
    s.streams.push_back(none);
    s.streams.back().ids = some;
  }
  if (r.chance(0.25)) {
    set<Record::Type> types;
    for (auto t : {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA}) {
      if (r.chance(0.6)) {
        types.insert(t);
        s.types.push_back({true, "", t});
      }
    }
    if (!types.empty()) {
      f.filter.types = types;
    }
  }
  if (!infos.empty() && r.chance(0.3)) {
    s.hasMin = true;
    s.min = infos[r.below(infos.size())].timestamp - (r.chance(0.3) ? 0.0005 : 0);
    f.setMinTime(s.min, false);
  }
  if (!infos.empty() && r.chance(0.3)) {
    s.hasMax = true;
    s.max = infos[r.below(infos.size())].timestamp;
    f.setMaxTime(s.max, false);
  }
  return s;
}

// can the block be read, given that these records are read before, in this order?
struct Reading {
  map<StreamId, const RichRec*> config;
  bool described(const RichRec& rr, const Delivered& b, const RichStream& s) const {
    if (b.origin.compare(0, 13, "configuration") != 0) {
      return true;
    }
    auto it = config.find(rr.rec.id);
    return rr.config != SIZE_MAX && it != config.end() && it->second == &s.rich[rr.config];
  }
  void read(const RichRec& rr) {
    if (rr.rec.type == Record::Type::CONFIGURATION) {
      config[rr.rec.id] = &rr;
    }
  }
};

// raw images that can be told with a png file, in this build
bool exportable(const MediaSpec& m) {
  if (m.imf != ImageFormat::RAW || m.pix == PixelFormat::RGB_IR_RAW_4X4 || m.pix == PixelFormat::YUY2) {
    return false;
  }
  bool packed = m.pix == PixelFormat::GREY10PACKED || m.pix == PixelFormat::RAW10 || m.pix == PixelFormat::RAW10_BAYER_RGGB || m.pix == PixelFormat::RAW10_BAYER_BGGR;
  return !packed || m.w % 4 == 0;
}

const char* extensionOf(ImageFormat f) {
  return f == ImageFormat::JPG ? ".jpg" : f == ImageFormat::PNG ? ".png" : f == ImageFormat::CUSTOM_CODEC ? ".custom_codec" : "";
}

struct Png {
  uint32_t w{}, h{};
};
bool readPng(const string& path, Png& out) {
  png_image im;
  memset(&im, 0, sizeof(im));
  im.version = PNG_IMAGE_VERSION;
  if (!png_image_begin_read_from_file(&im, path.c_str())) {
    return false;
  }
  out.w = im.width;
  out.h = im.height;
  im.format = PNG_FORMAT_RGBA;
  vector<uint8_t> b(PNG_IMAGE_SIZE(im));
  bool ok = png_image_finish_read(&im, nullptr, b.data(), 0, nullptr) != 0 && im.warning_or_error == 0;
  png_image_free(&im);
  return ok;
}

uint64_t u64(const JValue& v, const char* name, bool& ok) {
  auto it = v.FindMember(name);
  ok = it != v.MemberEnd() && it->value.IsUint64();
  return ok ? it->value.GetUint64() : 0;
}
bool isNumber(const JValue& v, const char* name, double e) {
  auto it = v.FindMember(name);
  return it != v.MemberEnd() && it->value.IsNumber() && it->value.GetDouble() == e;
}
bool isCount(const JValue& v, const char* name, uint64_t e) {
  bool ok = false;
  return u64(v, name, ok) == e && ok;
}

// tags: names and values, plain ones as they are; others may be escaped
string diffTagsJson(const JValue& v, const map<string, string>& tags) {
  if (!v.IsObject() || v.MemberCount() != tags.size()) {
    return vh::sf("%zu tags expected", tags.size());
  }
  for (auto& t : tags) {
    if (!validUtf8(t.first)) {
      continue;
    }
    size_t n = 0;
    for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) {
      if (text(m->name) == t.first) {
        n++;
        if (!m->value.IsString() || (plainText(t.second) && text(m->value) != t.second)) {
          return "tag " + t.first + " has another value";
        }
        if (!t.second.empty() && text(m->value).empty()) {
          return "tag " + t.first + " is empty";
        }
      }
    }
    if (n != 1) {
      return vh::sf("tag %s: %zu times", vh::printable(t.first).c_str(), n);
    }
  }
  return {};
}

struct Counts {
  size_t n{};
  double first{}, last{};
  void add(double t) {
    if (n++ == 0) {
      first = t;
    }
    last = t;
  }
};

// on disk sizes of the records of each stream
map<StreamId, int64_t> sizesOnDisk(const Recording& rec) {
  Bytes all;
  for (auto& k : rec.chunks) {
    auto b = vh::slurp(k);
    all.insert(all.end(), b.begin(), b.end());
  }
  map<StreamId, int64_t> out;
  size_t at = 80;
  while (at + 32 <= all.size()) {
    uint32_t size;
    int32_t type;
    uint16_t instance;
    memcpy(&size, &all[at], 4);
    memcpy(&type, &all[at + 8], 4);
    memcpy(&instance, &all[at + 24], 2);
    uint8_t kind = all[at + 26];
    if (size < 32) {
      break;
    }
    StreamId id(static_cast<RecordableTypeId>(type), instance);
    if (rec.byId.count(id) && kind >= 1 && kind <= 3 && kind != static_cast<uint8_t>(Record::Type::TAGS)) {
      out[id] += size;
    }
    at += size;
  }
  return out;
}

using RecordFileInfo::Details;

void checkCounts(Case& c, const JValue& device, const char* name, const Counts& k) {
  auto it = device.FindMember(name);
  if (!c.check(it != device.MemberEnd() && it->value.IsObject(), "overview-counts", "no %s records", name)) {
    return;
  }
  auto& v = it->value;
  bool times = v.HasMember("start_time") || v.HasMember("end_time");
  c.check(isCount(v, "number_of_records", k.n), "overview-counts", "%s records: %zu expected", name, k.n);
  c.check(times == (k.n > 0) && (k.n == 0 || (isNumber(v, "start_time", k.first) && isNumber(v, "end_time", k.last))), "overview-times", "%s records from %.17g to %.17g expected", name, k.first, k.last);
}

void checkJsonOverview(Case& c, const Recording& rec, RecordFileReader& reader, const set<StreamId>& streams, Details details, const string& json) {
  JDocument d;
  if (!c.check(parseJson(d, json) && d.IsObject(), "overview-malformed", "malformed JSON overview: %s", vh::printable(json).substr(0, 600).c_str())) {
    return;
  }
  c.count("overviews");
  bool pretty = details & Details::JsonPretty, pub = details & Details::UsePublicNames;
  c.check((pretty && d.MemberCount() > 0) == (json.find('\n') != string::npos), "overview-lines", "pretty %d", pretty);
  size_t fields = 0;
  auto expect = [&](bool on, const char* name) {
    bool has = d.HasMember(name);
    fields += has;
    c.check(on == has, "overview-fields", "field %s is %s", name, has ? "told" : "missing");
    return on && has;
  };
  if (expect(details & Details::Basics, "file_name")) {
    string n = text(d["file_name"]);
    c.check(n == rec.path || (!validUtf8(rec.path) && !n.empty()), "overview-name", "file name %s", vh::printable(n).c_str());
  }
  if (expect(details & Details::Basics, "file_size")) {
    c.check(isCount(d, "file_size", static_cast<uint64_t>(rec.fileSize)), "overview-size", "file size isn't %lld", static_cast<long long>(rec.fileSize));
  }
  expect(details & Details::Basics, "file_size_short");
  if (expect(details & Details::ChunkList, "file_chunks")) {
    auto& a = d["file_chunks"];
    bool ok = a.IsArray() && a.Size() == rec.chunks.size();
    for (size_t k = 0; ok && k < rec.chunks.size(); k++) {
      string n = text(a[static_cast<vrs_rapidjson::SizeType>(k)]);
      ok = n == rec.chunks[k] || (!validUtf8(rec.chunks[k]) && !n.empty());
    }
    c.check(ok, "overview-chunks", "list of %zu chunks (%s): %s", rec.chunks.size(), vh::printable(rec.path).c_str(), vh::printable(json.substr(0, 800), 800).c_str());
    c.count(rec.chunks.size() > 1 ? "chunked_files" : "single_files");
  }
  if (expect(details & Details::ListFileTags, "tags")) {
    string diff = diffTagsJson(d["tags"], rec.plan.tags);
    c.check(diff.empty(), "overview-tags", "file tags: %s", diff.c_str());
  }
  map<StreamId, map<Record::Type, Counts>> counts;
  Counts total;
  double first = INFINITY, last = -INFINITY;
  for (auto& i : rec.infos) {
    if (streams.count(i.streamId)) {
      counts[i.streamId][i.recordType].add(i.timestamp);
      total.add(i.timestamp);
      first = min(first, i.timestamp);
      last = max(last, i.timestamp);
    }
  }
  bool main = details & Details::MainCounters;
  if (expect(main, "number_of_devices")) {
    c.check(isCount(d, "number_of_devices", streams.size()), "overview-counts", "number of streams, %zu expected", streams.size());
  }
  if (expect(main, "number_of_records")) {
    c.check(isCount(d, "number_of_records", total.n), "overview-counts", "number of records, %zu expected", total.n);
  }
  if (expect(main && total.n > 0, "start_time")) {
    c.check(isNumber(d, "start_time", first), "overview-times", "start");
  }
  if (expect(main && total.n > 0, "end_time")) {
    c.check(isNumber(d, "end_time", last), "overview-times", "end");
  }
  bool names = details & Details::StreamNames, tags = details & Details::StreamTags, cnt = details & Details::StreamRecordCounts;
  if (expect(names || tags || cnt, "devices")) {
    auto& a = d["devices"];
    if (c.check(a.IsArray() && a.Size() == streams.size(), "overview-streams", "%zu streams expected", streams.size())) {
      auto disk = sizesOnDisk(rec);
      size_t k = 0;
      for (auto& id : streams) {
        auto& v = a[static_cast<vrs_rapidjson::SizeType>(k++)];
        auto& s = *rec.byId.at(id);
        if (!c.check(v.IsObject(), "overview-streams", "not an object")) {
          break;
        }
        c.check(names == v.HasMember(pub ? "device_type_id" : "recordable_id"), "overview-fields", "stream names");
        if (names && v.HasMember(pub ? "device_type_id" : "recordable_id")) {
          c.check(isCount(v, pub ? "device_type_id" : "recordable_id", static_cast<uint64_t>(id.getTypeId())) && isCount(v, pub ? "device_instance_id" : "instance_id", id.getInstanceId()), "overview-streams", "stream #%zu isn't %s", k - 1, id.getNumericName().c_str());
          const char* fl = pub ? "device_flavor" : "recordable_flavor";
          string flavor = rec.flavors.at(id);
          bool has = v.HasMember(fl);
          c.check(has == !flavor.empty() && (!has || (v[fl].IsString() && (text(v[fl]) == flavor || !validUtf8(flavor)))), "overview-flavor", "flavor of %s", id.getNumericName().c_str());
          const char* nm = pub ? "device_name" : "recordable_name";
          c.check(v.HasMember(nm) && text(v[nm]) == id.getTypeName(), "overview-streams", "name of %s", id.getNumericName().c_str());
        }
        c.check(tags == v.HasMember("tags"), "overview-fields", "stream tags");
        if (tags && v.HasMember("tags")) {
          auto& st = reader.getTags(id);
          string diff = diffTagsJson(v["tags"], st.user);
          c.check(diff.empty(), "overview-tags", "tags of %s: %s", id.getNumericName().c_str(), diff.c_str());
          const char* vt = v.HasMember("vrs_tags") ? "vrs_tags" : "vrs_tag";
          diff = v.HasMember(vt) ? diffTagsJson(v[vt], st.vrs) : "missing";
          c.check(diff.empty(), "overview-tags", "VRS tags of %s: %s", id.getNumericName().c_str(), diff.c_str());
        }
        c.check(cnt == v.HasMember("data"), "overview-fields", "stream counts");
        if (cnt) {
          checkCounts(c, v, "configuration", counts[id][Record::Type::CONFIGURATION]);
          checkCounts(c, v, "state", counts[id][Record::Type::STATE]);
          checkCounts(c, v, "data", counts[id][Record::Type::DATA]);
        }
        bool sizes = details & Details::StreamRecordSizes;
        c.check(sizes == v.HasMember("stream_size"), "overview-fields", "stream size");
        if (sizes && v.HasMember("stream_size")) {
          bool tagged = !s.getTags().empty() || !s.getVRSTags().empty(); // tags are records as well, next to the last one
          (void)tagged;
          c.check(isCount(v, "stream_size", static_cast<uint64_t>(disk[id])), "overview-stream-size", "size of %s isn't %lld", id.getNumericName().c_str(), static_cast<long long>(disk[id]));
        }
      }
    }
  }
  c.check(fields == d.MemberCount(), "overview-fields", "unexpected fields");
}

string regexEscape(const string& s) {
  string o;
  for (char ch : s) {
    if (strchr("\\^$.|?*+()[]{}", ch)) {
      o += '\\';
    }
    o += ch;
  }
  return o;
}

// the human readable form of a time, as told by the documentation
string humanTime(double t) {
  double a = fabs(t);
  return a > 0 && a < 1e-3 ? vh::sf("%.3e", t) : a >= 1e10 ? vh::sf("%.9e", t) : vh::sf("%.3f", t);
}

size_t occurrences(const string& t, const string& what) {
  size_t n = 0;
  for (size_t at = 0; (at = t.find(what, at)) != string::npos; at += what.size()) {
    n++;
  }
  return n;
}

string countText(const char* kind, const Counts& k) {
  string name = string(kind) + " record";
  if (k.n == 0) {
    return "  No " + name + "s.\n";
  }
  string s = "  " + vh::sf("%zu ", k.n) + name + (k.n == 1 ? "" : "s") + ", ";
  return s + (k.n == 1 ? "at " + humanTime(k.first) + ".\n" : "from " + humanTime(k.first) + " to " + humanTime(k.last) + " (");
}

void checkTextOverview(Case& c, const Recording& rec, const set<StreamId>& streams, Details details, const string& t) {
  c.count("text_overviews");
  map<StreamId, map<Record::Type, Counts>> counts;
  Counts total, data;
  for (auto& i : rec.infos) {
    if (streams.count(i.streamId)) {
      counts[i.streamId][i.recordType].add(i.timestamp);
      total.add(i.timestamp);
      if (i.recordType == Record::Type::DATA) {
        data.add(i.timestamp);
      }
    }
  }
  auto some = [](size_t n, const char* what) { return (n == 0 ? string("no ") : vh::sf("%zu ", n)) + what + (n == 1 ? "" : "s"); };
  if (details & Details::MainCounters) {
    string e = "Found " + some(streams.size(), "stream") + ", " + some(total.n, "record") + ", ";
    e += data.n == 0 ? "no data records" : data.n == 1 ? "1 data record at " + humanTime(data.first) : vh::sf("%zu data records from ", data.n) + humanTime(data.first) + " to " + humanTime(data.last) + " (";
    size_t at = t.find("Found ");
    c.check(at != string::npos && t.compare(at, e.size(), e) == 0, "overview-text-main", "'%s' instead of '%s'", at == string::npos ? "nothing" : vh::printable(t.substr(at, 120)).c_str(), e.c_str());
  }
  if (details & (Details::StreamNames + Details::StreamTags + Details::StreamRecordCounts)) {
    size_t before = 0;
    for (auto& id : streams) {
      string mark = " [" + id.getNumericName() + "] record";
      size_t n = occurrences(t, mark);
      if (!c.check(n == 1, "overview-text-streams", "stream %s is listed %zu times", id.getNumericName().c_str(), n)) {
        continue;
      }
      size_t at = t.find(mark);
      c.check(at >= before, "overview-text-streams", "streams aren't in order");
      before = at;
      size_t sum = 0;
      for (auto& k : counts[id]) {
        sum += k.second.n;
      }
      string fl = rec.flavors.at(id);
      string e = vh::sf(" #%u", id.getInstanceId()) + (fl.empty() ? "" : " - " + fl) + mark + (sum == 1 ? "" : "s");
      size_t b = t.find(e);
      // the line starts with the count
      size_t line = b;
      while (line != string::npos && line > 0 && t[line - 1] != '\n') {
        line--;
      }
      string start = sum == 0 ? "No " : vh::sf("%zu ", sum);
      c.check(b != string::npos && t.compare(line, start.size(), start) == 0, "overview-text-streams", "line of stream %s: '%s'", id.getNumericName().c_str(), b == string::npos ? "" : vh::printable(t.substr(line, 120)).c_str());
      if (details & Details::StreamRecordCounts) {
        auto& k = counts[id];
        size_t pos = at;
        for (auto& e2 : {countText("configuration", k[Record::Type::CONFIGURATION]), countText("state", k[Record::Type::STATE]), countText("data", k[Record::Type::DATA])}) {
          pos = t.find(e2, pos);
          if (!c.check(pos != string::npos, "overview-text-counts", "stream %s: no '%s'", id.getNumericName().c_str(), vh::printable(e2).c_str())) {
            break;
          }
        }
      }
    }
  }
}

Details randomDetails(Rng& r) {
  uint32_t v = r.chance(0.4) ? static_cast<uint32_t>(Details::Everything) : static_cast<uint32_t>(r.below(256));
  for (auto d : {Details::JsonPretty, Details::UsePublicNames, Details::CompleteTags}) {
    if (r.chance(0.4)) {
      v |= static_cast<uint32_t>(d);
    }
  }
  return static_cast<Details>(v);
}

// blocks of a record, as told by a list of JSON values. In the exported form, the key of metadata differs, and sound is
// told by other files.
struct Walk {
  Case& c;
  const Recording& rec;
  Reading reading;
  bool exported{};
  string folder; // exported
  map<StreamId, set<string>> files; // names found
  set<StreamId> sounds;
  size_t blocks{};
  bool uncertain{}; // blocks could not be judged

  // returns false if the record can't be judged further
  void record(const RichRec& rr, const vector<const JValue*>& entries) {
    auto& s = *rec.byId.at(rr.rec.id);
    size_t e = 0;
    bool lost = false; // a block of unknown size has been met: what follows can't be located
    string where = vh::sf("%s %s @ %.3f", rr.rec.id.getNumericName().c_str(), toString(rr.rec.type).c_str(), rr.rec.ts);
    for (auto& b : rr.blocks) {
      bool described = (b.type != ContentType::IMAGE && b.type != ContentType::AUDIO) || reading.described(rr, b, s);
      // (a size told by metadata is not used, when the format is not known)
      bool told = b.origin.find("sized") != string::npos;
      if (exported && b.type == ContentType::AUDIO && described) {
        if (e < entries.size() && entries[e]->IsObject() && entries[e]->HasMember("audio")) {
          e++;
        }
        sounds.insert(rr.rec.id);
        c.count("blocks_audio");
        continue;
      }
      if (e >= entries.size()) {
        c.check(lost, "block-missing", "%s: block %zu (%s, %s) isn't accounted for", where.c_str(), b.index, toString(b.type).c_str(), b.origin.c_str());
        break;
      }
      auto& v = *entries[e++];
      if (lost) {
        break; // more may be told, if it could be located
      }
      blocks++;
      if (!v.IsObject() || v.MemberCount() != 1) {
        c.fail("block-form", "%s: block %zu", where.c_str(), b.index);
        break;
      }
      const char* name = v.MemberBegin()->name.GetString();
      string n = name;
      if (n == "unsupported" || n == "unsupported_block") {
        bool ok = !described || (exported && b.type == ContentType::IMAGE && (b.media.imf == ImageFormat::VIDEO || (b.media.imf == ImageFormat::RAW && !exportable(b.media))));
        c.check(ok && v.MemberBegin()->value.IsString(), "block-unsupported", "%s: block %zu (%s, %s) isn't supported: %s %s", where.c_str(), b.index, toString(b.type).c_str(), b.origin.c_str(),
                b.type == ContentType::IMAGE && b.media.imf == ImageFormat::RAW ? toString(b.media.pix).c_str() : "", vh::printable(text(v.MemberBegin()->value)).c_str());
        c.count("blocks_unsupported");
        lost = lost || (!described && !told);
        continue;
      }
      if (!described) {
        lost = true; // described by another configuration: judged elsewhere
        if (b.type == ContentType::AUDIO) {
          sounds.insert(rr.rec.id);
        }
        c.count("blocks_undescribed");
        continue;
      }
      switch (b.type) {
        case ContentType::DATA_LAYOUT: {
          string d = diffMetadata(v, exported ? "metadata" : "data_layout", b.values);
          c.check(d.empty(), "metadata", "%s: block %zu: %s", where.c_str(), b.index, d.c_str());
          c.count("blocks_metadata");
          break;
        }
        case ContentType::CUSTOM:
          if (exported) {
            bool ok = n == "custom" && v["custom"].IsObject() && isCount(v["custom"], "size", b.bytes.size());
            c.check(ok, "custom", "%s: block %zu, a custom block of %zu bytes", where.c_str(), b.index, b.bytes.size());
          } else {
            c.check(n == "custom" && v["custom"].IsString(), "custom", "%s: block %zu", where.c_str(), b.index);
          }
          c.count("blocks_custom");
          break;
        case ContentType::IMAGE:
          if (c.check(n == "image" && v["image"].IsString(), "image", "%s: block %zu, an image, is %s", where.c_str(), b.index, name)) {
            c.count("blocks_image");
            if (exported) {
              image(rr, b, text(v["image"]), where);
            }
          }
          break;
        default:
          c.check(n == "audio" && v["audio"].IsString(), "audio", "%s: block %zu", where.c_str(), b.index);
          c.count("blocks_audio");
      }
    }
    uncertain = uncertain || lost;
    for (auto& b : rr.blocks) {
      if (lost && b.type == ContentType::AUDIO) {
        sounds.insert(rr.rec.id);
      }
    }
    for (auto* v : entries) { // those not judged
      if (exported && v->IsObject() && str(*v, "image")) {
        files[rr.rec.id].insert(str(*v, "image"));
      }
    }
    c.check(e >= entries.size() || lost, "block-extra", "%s: %zu blocks told, %zu recorded", where.c_str(), entries.size(), rr.blocks.size());
    reading.read(rr);
  }

  void image(const RichRec& rr, const Delivered& b, const string& name, const string& where) {
    string dir = folder + "/" + rr.rec.id.getNumericName(), path = dir + "/" + name;
    c.check(files[rr.rec.id].insert(name).second, "image-name", "%s: image name %s is used twice", where.c_str(), name.c_str());
    if (!c.check(name.find('/') == string::npos && access(path.c_str(), R_OK) == 0, "image-file", "%s: no file %s (%s)", where.c_str(), name.c_str(), b.media.imf == ImageFormat::RAW ? toString(b.media.pix).c_str() : "")) {
      return;
    }
    if (b.media.imf == ImageFormat::RAW) {
      Png p;
      bool ok = readPng(path, p);
      c.check(ok && p.w == b.media.w && p.h == b.media.h, "image-png", "%s: %s isn't an image of %ux%u (%s): %d %ux%u", where.c_str(), name.c_str(), b.media.w, b.media.h, toString(b.media.pix).c_str(), ok, p.w, p.h);
      c.count("png_files");
    } else {
      c.check(vh::slurp(path) == b.bytes, "image-bytes", "%s: %s", where.c_str(), name.c_str());
      string ext = extensionOf(b.media.imf);
      c.check(name.size() > ext.size() && name.compare(name.size() - ext.size(), ext.size(), ext) == 0, "image-name", "%s: %s", where.c_str(), name.c_str());
      c.count("encoded_files");
    }
  }
};

void exportCase(Case& c) {
  auto& r = c.rng;
  Recording rec = makeRecording(c, 20, false);
  string folder = c.file("out");
  bool whole = r.chance(0.2);
  Selected want;
  FilteredFileReader f(rec.path);
  if (f.openFile() != 0) {
    c.failNow("setup", "openFile");
  }
  matchRecords(c, rec, f.reader);
  set<StreamId> streams = f.reader.getStreams();
  auto all = streams;
  int status = 0;
  string out;
  if (whole) {
    want = select(rec.infos, all, Selection{}, false, 0, 0);
    Capture cap(c.file("stdout"));
    status = DataExtractor::extractAll(rec.path, folder);
    out = cap.end();
  } else {
    Selection s = choose(c, f, rec.infos);
    bool any = false;
    double first = 0, last = 0;
    dataRange(rec.infos, all, any, first, last);
    want = select(rec.infos, all, s, any, first, last);
    streams = f.filter.streams;
    Capture cap(c.file("stdout"));
    if (r.chance(0.2)) {
      DataExtractor x(f.reader, folder + ""); // the folder's name doesn't outlive this line
      for (auto id : f.filter.streams) {
        x.extract(id);
      }
      status = x.createOutput();
      if (status == 0) {
        f.iterateSafe();
        status = x.completeOutput();
      }
    } else {
      status = extractAll(folder, f);
    }
    out = cap.end();
  }
  if (!want.validRange) {
    c.count("empty_ranges");
  }
  if (!c.check(status == 0, "export-failed", "the export returns %d", status)) {
    return;
  }
  c.count("exports");
  auto bytes = vh::slurp(folder + "/metadata.jsons");
  string meta(bytes.begin(), bytes.end());
  vector<string> lines;
  {
    stringstream ss(meta);
    string l;
    while (getline(ss, l)) {
      lines.push_back(l);
    }
  }
  if (!c.check(!lines.empty() && meta.back() == '\n', "export-lines", "%zu lines", lines.size())) {
    return;
  }
  checkJsonOverview(c, rec, f.reader, streams, Details::Everything + Details::UsePublicNames, lines[0]);
  auto readme = vh::slurp(folder + "/ReadMe.md");
  string rm(readme.begin(), readme.end());
  size_t at = rm.find("## VRS File Metadata");
  if (c.check(at != string::npos, "export-readme", "no overview")) {
    checkTextOverview(c, rec, streams, Details::Everything, rm.substr(at));
  }
  vector<size_t> order;
  if (want.validRange) {
    order = want.preroll;
    size_t told = (lines.size() - 1) / 2;
    if (want.prerollOptional && told == want.main.size()) {
      order.clear();
    }
    order.insert(order.end(), want.main.begin(), want.main.end());
  }
  c.check(lines.size() == 1 + 2 * order.size(), "export-records", "%zu lines for %zu records", lines.size() - 1, order.size());
  Walk w{c, rec, {}, true, folder, {}, {}, 0};
  for (size_t k = 0; k < order.size() && 2 * k + 2 < lines.size(); k++) {
    auto& info = rec.infos[order[k]];
    auto& rr = *rec.recs[order[k]];
    JDocument h, b;
    if (!c.check(parseJson(h, lines[1 + 2 * k]) && h.IsObject(), "export-malformed", "line %zu: %s", 1 + 2 * k, vh::printable(lines[1 + 2 * k]).substr(0, 300).c_str()) ||
        !c.check(parseJson(b, lines[2 + 2 * k]) && b.IsObject(), "export-malformed", "line %zu: %s", 2 + 2 * k, vh::printable(lines[2 + 2 * k]).substr(0, 300).c_str())) {
      return;
    }
    bool ok = str(h, "stream") && info.streamId.getNumericName() == str(h, "stream") && str(h, "type") && string(Record::typeName(info.recordType)) == str(h, "type") && isNumber(h, "timestamp", info.timestamp);
    if (!c.check(ok && h.MemberCount() == 3, "export-record", "record #%zu: %s", k, lines[1 + 2 * k].c_str())) {
      return;
    }
    auto it = b.FindMember("content");
    if (!c.check(it != b.MemberEnd() && it->value.IsArray() && b.MemberCount() == 1, "export-content", "record #%zu", k)) {
      return;
    }
    vector<const JValue*> entries;
    for (auto& v : it->value.GetArray()) {
      entries.push_back(&v);
    }
    w.record(rr, entries);
    c.count("records");
  }
  // and nothing else
  for (auto& name : vh::listDir(folder)) {
    if (name == "ReadMe.md" || name == "metadata.jsons") {
      continue;
    }
    StreamId id = StreamId::fromNumericName(name);
    c.check(rec.byId.count(id) && streams.count(id), "export-folder", "%s", vh::printable(name).c_str());
    for (auto& n : vh::listDir(folder + "/" + name)) {
      bool wav = n.size() > 4 && n.compare(n.size() - 4, 4, ".wav") == 0;
      c.check(wav || w.files[id].count(n), "export-unlisted", "%s/%s isn't told by the metadata", name.c_str(), vh::printable(n).c_str());
      if (wav) {
        c.check(w.sounds.count(id), "export-sound", "%s", n.c_str());
        c.count("sound_files");
      }
    }
  }
  c.signature(vh::sf("%zu/%zu/%zu/%zu", streams.size(), order.size(), w.blocks, meta.size()));
}

void reportCase(Case& c) {
  auto& r = c.rng;
  Recording rec = makeRecording(c, 25, true);
  FilteredFileReader f(rec.path);
  if (f.openFile() != 0) {
    c.failNow("setup", "openFile");
  }
  matchRecords(c, rec, f.reader);
  auto all = f.reader.getStreams();
  Selection s = choose(c, f, rec.infos);
  auto streams = f.filter.streams;
  Selected want = select(rec.infos, all, s, false, 0, 0);
  if (!want.validRange) {
    want.main.clear();
    want.preroll.clear();
  }
  Details details = randomDetails(r);
  checkJsonOverview(c, rec, f.reader, streams, details, RecordFileInfo::jsonOverview(f.reader, streams, details));
  if (r.chance(0.2)) {
    checkJsonOverview(c, rec, f.reader, all, details, RecordFileInfo::jsonOverview(rec.path, details));
    RecordFileReader closed;
    JDocument d;
    string j = RecordFileInfo::jsonOverview(closed, details);
    c.check(parseJson(d, j), "overview-closed", "%s", vh::printable(j).c_str());
    j = RecordFileInfo::jsonOverview(c.file("none\"\\\x01.vrs"), details);
    c.check(parseJson(d, j) && d.IsObject() && d.HasMember("error_code"), "overview-none", "%s", vh::printable(j).c_str());
  }
  {
    stringstream ss;
    RecordFileInfo::printOverview(ss, f.reader, streams, details);
    checkTextOverview(c, rec, streams, details, ss.str());
  }
  // list of records
  {
    Capture cap(c.file("stdout"));
    listRecords(f);
    string t = cap.end();
    stringstream ss(t);
    string l;
    size_t k = 0;
    while (getline(ss, l)) {
      if (!c.check(k < want.main.size(), "list-extra", "%s", l.c_str())) {
        break;
      }
      auto& i = rec.infos[want.main[k]];
      string e = vh::sf("%.3f ", i.timestamp) + i.streamId.getName() + " [" + i.streamId.getNumericName() + "], " + Record::typeName(i.recordType) + " record, " + vh::sf("%zu bytes total.", rec.recs[want.main[k]]->rec.data.size());
      if (!c.check(l == e, "list", "'%s' instead of '%s'", l.c_str(), e.c_str())) {
        break;
      }
      k++;
    }
    c.check(k == want.main.size(), "list-missing", "%zu records instead of %zu", k, want.main.size());
    c.count("listed", static_cast<int64_t>(k));
  }
  // records as JSON
  Reading start;
  for (size_t i : want.preroll) {
    start.read(*rec.recs[i]);
  }
  size_t blocks = 0;
  bool uncertain = false;
  for (int pretty = 0; pretty < 2; pretty++) {
    Capture cap(c.file("stdout"));
    printRecordFormatRecords(f, pretty ? PrintoutType::JsonPretty : PrintoutType::JsonCompact);
    string t = cap.end();
    vector<unique_ptr<JDocument>> docs;
    size_t bad = 0;
    if (!c.check(parseAll(t, docs, bad), "print-malformed", "at %zu: %s", bad, vh::printable(t.substr(bad)).substr(0, 300).c_str())) {
      break;
    }
    if (!pretty) {
      c.check(static_cast<size_t>(count(t.begin(), t.end(), '\n')) == docs.size(), "print-lines", "%zu documents", docs.size());
    }
    size_t d = 0;
    Walk w{c, rec, start, false, "", {}, {}, 0};
    for (size_t k = 0; k < want.main.size(); k++) {
      auto& i = rec.infos[want.main[k]];
      auto& rr = *rec.recs[want.main[k]];
      if (!c.check(d < docs.size() && docs[d]->IsObject() && docs[d]->HasMember("record") && (*docs[d])["record"].IsObject(), "print-missing", "record #%zu of %zu", k, want.main.size())) {
        break;
      }
      auto& h = (*docs[d])["record"];
      auto ts = h.FindMember("timestamp");
      bool ok = ts != h.MemberEnd() && ts->value.IsNumber() && fabs(ts->value.GetDouble() - i.timestamp) <= 0.00051 && str(h, "device") && i.streamId.getNumericName() == str(h, "device") && str(h, "type") &&
          string(Record::typeName(i.recordType)) == str(h, "type") && isCount(h, "size", rr.rec.data.size());
      if (!c.check(ok, "print-record", "record #%zu", k)) {
        break;
      }
      vector<const JValue*> entries;
      for (d++; d < docs.size() && docs[d]->IsObject() && !docs[d]->HasMember("record"); d++) {
        entries.push_back(docs[d].get());
      }
      w.record(rr, entries);
      c.count("printed");
    }
    c.check(d == docs.size(), "print-extra", "%zu documents, %zu expected", docs.size(), d);
    blocks = w.blocks;
    uncertain = w.uncertain;
  }
  // for people
  {
    auto type = r.pick({PrintoutType::Compact, PrintoutType::Details, PrintoutType::None});
    Capture cap(c.file("stdout"));
    printRecordFormatRecords(f, type);
    string t = cap.end();
    if (type == PrintoutType::None) {
      string e = vh::sf("Decoded %zu records", want.main.size());
      c.check(t.compare(0, e.size(), e) == 0 && (t[e.size()] == ',' || t[e.size()] == '.'), "print-summary", "'%s' instead of '%s'", t.c_str(), e.c_str());
      size_t sum = 0;
      regex number(", ([0-9]+) ");
      for (sregex_iterator it(t.begin(), t.end(), number); it != sregex_iterator(); ++it) {
        sum += stoul((*it)[1]);
      }
      c.check(uncertain ? sum >= blocks : sum == blocks, "print-summary", "%zu blocks instead of %zu: %s", sum, blocks, t.c_str());
      c.count("summaries");
    } else {
      size_t at = 0;
      for (size_t k = 0; k < want.main.size(); k++) {
        auto& i = rec.infos[want.main[k]];
        string e = vh::sf("%.3f ", i.timestamp) + i.streamId.getName() + " [" + i.streamId.getNumericName() + "], " + Record::typeName(i.recordType) + " record, ";
        size_t p = t.find(e, at);
        if (!c.check(p != string::npos, "print-text", "no record '%s'", e.c_str())) {
          break;
        }
        at = p + e.size();
        string z = vh::sf(" = %zu bytes total.\n", rec.recs[want.main[k]]->rec.data.size());
        p = t.find(z, at);
        if (!c.check(p != string::npos, "print-text", "no size for '%s'", e.c_str())) {
          break;
        }
        at = p;
      }
    }
  }
  // formats
  {
    string t = printRecordFormats(f);
    size_t n = 0, at = 0;
    for (auto& id : streams) {
      map<pair<Record::Type, uint32_t>, const FormatDef*> formats;
      for (auto& d : rec.byId.at(id)->formats) {
        formats[{d->type, d->ver}] = d.get();
      }
      for (auto& k : formats) {
        auto& def = *k.second;
        string e = id.getNumericName() + " " + id.getName() + " " + toString(def.type) + vh::sf(" v%u: ", def.ver);
        if (!f.filter.types.count(def.type)) {
          c.check(t.find(e) == string::npos, "formats-extra", "%s", e.c_str());
          continue;
        }
        size_t p = t.find(e, at);
        if (!c.check(p != string::npos, "formats-missing", "%s", e.c_str())) {
          continue;
        }
        c.check(occurrences(t, e) == 1, "formats-twice", "%s", e.c_str());
        at = p + e.size();
        n++;
        for (size_t b = 0; b < def.blocks.size(); b++) {
          if (def.blocks[b].type == ContentType::DATA_LAYOUT) {
            string head = vh::sf("Content block %zu: ", b);
            p = t.find(head, at);
            if (!c.check(p != string::npos, "formats-layout", "%s block %zu", e.c_str(), b)) {
              break;
            }
            at = p + head.size();
            using namespace vrs_rapidjson;
            StringStream is(t.c_str() + at);
            JDocument d;
            d.ParseStream<kParseNanAndInfFlag | kParseValidateEncodingFlag | kParseStopWhenDoneFlag>(is);
            bool ok = !d.HasParseError() && d.IsObject() && d.HasMember("data_layout") && d["data_layout"].IsArray() && d["data_layout"].Size() == def.blocks[b].layout->fields.size();
            if (!c.check(ok, "formats-layout", "%s block %zu: %s", e.c_str(), b, vh::printable(t.substr(at, 200)).c_str())) {
              break;
            }
            for (auto& fd : def.blocks[b].layout->fields) {
              size_t times = 0;
              for (auto& v : d["data_layout"].GetArray()) {
                times += v.IsObject() && str(v, "name") && fd.label == str(v, "name");
              }
              c.check(times == 1, "formats-layout", "%s block %zu: field %s %zu times", e.c_str(), b, fd.label.c_str(), times);
            }
            at += is.Tell();
            c.count("layouts");
          }
        }
      }
    }
    c.count("formats", static_cast<int64_t>(n));
  }
  // summaries of checks
  {
    CopyOptions o(false);
    o.jsonOutput = true;
    auto type = r.pick({CheckType::Check, CheckType::Checksum, CheckType::Checksums, CheckType::Decode});
    string j;
    {
      Capture cap(c.file("stdout"));
      j = checkRecords(f, o, type);
    }
    JDocument d;
    bool ok = parseJson(d, j) && d.IsObject();
    if (!want.validRange) {
      c.count("empty_ranges");
    } else if (c.check(ok, "check-malformed", "%s", vh::printable(j).c_str())) {
      c.count("checks");
      if (type == CheckType::Check || type == CheckType::Decode) {
        size_t bad = 0;
        Reading reading = start;
        bool judged = true;
        for (size_t i : want.main) {
          auto& rr = *rec.recs[i];
          bool fails = false;
          for (auto& b : rr.blocks) {
            judged = judged && reading.described(rr, b, *rec.byId.at(rr.rec.id));
            fails = fails || (b.type == ContentType::IMAGE && b.media.imf != ImageFormat::RAW);
          }
          bad += fails;
          reading.read(rr);
        }
        if (type == CheckType::Check) {
          bad = 0;
          judged = true;
        }
        bool has = false, hasAll = false;
        uint64_t decoded = u64(d, "decoded_count", has), count = u64(d, "record_count", hasAll);
        if (judged) {
          c.check(hasAll && d.HasMember("good_file") && d["good_file"].IsTrue() && (has ? decoded : count) == want.main.size() - bad, "check-counts", "%zu records, %zu can't be decoded: %s", want.main.size(), bad, j.c_str());
          c.count(type == CheckType::Check ? "checks_judged" : "decodes_judged");
        }
      } else {
        c.check(d.HasMember("checksum") && d["checksum"].IsString(), "check-checksum", "%s", j.c_str());
        if (type == CheckType::Checksums) {
          c.check(d.MemberCount() == 2 + 4 * streams.size(), "check-checksums", "%s", j.c_str());
        }
      }
    }
  }
  c.signature(vh::sf("%zu/%zu/%zu", streams.size(), want.main.size(), blocks));
}

void imagesCase(Case& c) {
  auto& r = c.rng;
  Recording rec = makeRecording(c, 25, false);
  FilteredFileReader f(rec.path);
  if (f.openFile() != 0) {
    c.failNow("setup", "openFile");
  }
  matchRecords(c, rec, f.reader);
  auto all = f.reader.getStreams();
  Selection s = choose(c, f, rec.infos);
  Selected want = select(rec.infos, all, s, false, 0, 0);
  bool raw = r.chance(0.5);
  string folder = c.file("out");
  {
    Capture cap(c.file("stdout"));
    extractImages(folder, f, raw);
    cap.end();
  }
  vector<size_t> order;
  if (want.validRange) {
    order = want.preroll;
    order.insert(order.end(), want.main.begin(), want.main.end());
  }
  // every image, in order, by stream
  struct Expect {
    const Delivered* b;
    double ts;
    bool certain;
  };
  map<StreamId, vector<Expect>> expected;
  // images are searched in streams with data records
  set<StreamId> searched;
  for (auto& i : rec.infos) {
    if (i.recordType == Record::Type::DATA) {
      searched.insert(i.streamId);
    }
  }
  Reading reading;
  for (size_t i : order) {
    auto& rr = *rec.recs[i];
    if (!searched.count(rr.rec.id)) {
      continue;
    }
    bool lost = false;
    for (auto& b : rr.blocks) {
      bool media = b.type == ContentType::IMAGE || b.type == ContentType::AUDIO;
      if (media && !reading.described(rr, b, *rec.byId.at(rr.rec.id))) {
        lost = true;
      }
      if (b.type == ContentType::IMAGE) {
        expected[rr.rec.id].push_back({&b, rr.rec.ts, !lost});
        lost = lost || (!raw && b.media.imf == ImageFormat::VIDEO);
      }
    }
    reading.read(rr);
  }
  map<StreamId, map<size_t, vector<string>>> found; // by number
  size_t files = 0;
  if (access(folder.c_str(), F_OK) == 0) {
    for (auto& n : vh::listDir(folder)) {
      unsigned type = 0, instance = 0, number = 0;
      double ts = 0;
      int end = 0;
      if (!c.check(sscanf(n.c_str(), "%u-%u-%u-%lf%n", &type, &instance, &number, &ts, &end) == 4, "images-name", "%s", vh::printable(n).c_str())) {
        continue;
      }
      StreamId id(static_cast<RecordableTypeId>(type), static_cast<uint16_t>(instance));
      found[id][number].push_back(n);
      files++;
      // the image it is, by its number
      auto it = expected.find(id);
      if (!c.check(it != expected.end() && number >= 1 && number <= it->second.size(), "images-extra", "%s", vh::printable(n).c_str())) {
        continue;
      }
    }
  }
  if (want.prerollOptional && files == 0) {
    bool any = false;
    for (size_t i : want.main) {
      for (auto& b : rec.recs[i]->blocks) {
        any = any || b.type == ContentType::IMAGE;
      }
    }
    if (!any) {
      expected.clear();
    }
  }
  size_t certain = 0;
  for (auto& e : expected) {
    bool allCertain = true;
    for (auto& x : e.second) {
      allCertain = allCertain && x.certain;
    }
    if (!allCertain) {
      continue; // numbers may differ
    }
    for (size_t k = 0; k < e.second.size(); k++) {
      auto& x = e.second[k];
      auto& m = x.b->media;
      auto& names = found[e.first][k + 1];
      bool toPng = !raw && m.imf == ImageFormat::RAW;
      bool can = raw || (m.imf != ImageFormat::VIDEO && (!toPng || exportable(m)));
      if (!can) {
        continue;
      }
      certain++;
      if (!c.check(names.size() == 1, "images-missing", "image #%zu of %s, %s %s: %zu files", k + 1, e.first.getNumericName().c_str(), toString(m.imf).c_str(), m.imf == ImageFormat::RAW ? toString(m.pix).c_str() : vh::printable(m.codec).c_str(), names.size())) {
        continue;
      }
      string base = e.first.getNumericName() + vh::sf("-%05zu-%.3f", k + 1, x.ts);
      c.check(names[0].compare(0, base.size(), base) == 0, "images-name", "%s instead of %s", names[0].c_str(), base.c_str());
      string path = folder + "/" + names[0];
      if (toPng) {
        Png p;
        bool ok = readPng(path, p);
        c.check(ok && p.w == m.w && p.h == m.h, "images-png", "%s isn't an image of %ux%u", names[0].c_str(), m.w, m.h);
        c.count("png_files");
      } else {
        c.check(vh::slurp(path) == x.b->bytes, "images-bytes", "%s", vh::printable(names[0]).c_str());
        c.count("encoded_files");
        if (m.imf == ImageFormat::RAW) {
          string e2 = base + "-" + toString(m.pix) + vh::sf("-%ux%u", m.w, m.h);
          c.check(names[0].compare(0, e2.size(), e2) == 0, "images-name", "%s instead of %s", names[0].c_str(), e2.c_str());
        }
      }
    }
  }
  c.count("image_files", static_cast<int64_t>(files));
  c.signature(vh::sf("%zu/%zu/%d", certain, files, raw));
}
} // namespace

static void runCase(Case& c) {
  if (c.mode == "report") {
    reportCase(c);
  } else if (c.mode == "images") {
    imagesCase(c);
  } else {
    exportCase(c);
  }
}
VH_MAIN()
