// C06: damaged and malicious files, given to everything that reads files.
// USES: core utils
// WITH: vrsgen plan rich
#include "plan.h"
#include "rich.h"

#include <sstream>

#include <zstd.h>

#include <vrs/FileDetailsCache.h>
#include <vrs/FileFormat.h>
#include <vrs/utils/AudioBlock.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/RecordFileInfo.h>
#include <vrs/utils/Validation.h>
#include <tools/vrs/VrsCommand.h>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
// ---- hostile texts -------------------------------------------------------------------------------------------------
// a JSON value (of any kind) becomes a value of another kind
bool otherJsonValue(Rng& r, string& t) {
  vector<size_t> starts;
  bool quoted = false;
  for (size_t i = 0; i < t.size(); i++) {
    if (quoted) {
      if (t[i] == '\\') {
        i++;
      } else if (t[i] == '"') {
        quoted = false;
      }
    } else if (t[i] == '"') {
      quoted = true;
    } else if (t[i] == ':' || t[i] == '[' || t[i] == ',') {
      starts.push_back(i + 1);
    }
  }
  if (starts.empty() || t[0] != '{') {
    return false;
  }
  size_t a = starts[r.below(starts.size())];
  size_t e = a;
  int depth = 0;
  quoted = false;
  for (; e < t.size(); e++) {
    char ch = t[e];
    if (quoted) {
      if (ch == '\\') {
        e++;
      } else if (ch == '"') {
        quoted = false;
      }
    } else if (ch == '"') {
      quoted = true;
    } else if (ch == '{' || ch == '[') {
      depth++;
    } else if ((ch == ',' && depth == 0) || ((ch == '}' || ch == ']') && depth-- == 0)) {
      break;
    }
  }
  e = min(e, t.size());
  static const char* values[] = {"5", "-1", "\"x\"", "\"\"", "null", "true", "false", "[]", "{}", "[1,2,3]", "[[1,2],[3,4]]", "{\"name\":3}", "{\"a\":\"b\"}", "1.5e300", "18446744073709551615", "[null]", "[{}]", "[[]]", "[\"x\",{\"name\":\"y\",\"type\":\"DataPieceValue<uint32_t>\"}]"};
  t.replace(a, e - a, values[r.below(sizeof(values) / sizeof(*values))]);
  return true;
}

string hostileText(Rng& r, string t) {
  static const char* numbers[] = {"0", "1", "4294967295", "4294967296", "2147483648", "65536", "18446744073709551615", "99999999999999999999999", "-1", "1e30", "4294967294", "255", "256"};
  static const char* bits[] = {"/", "+", "=", "image", "audio", "data_layout", "custom", "raw", "pcm", "pixel=rgb8", "jpg", "size=", "stride=", "channels=", "{", "}", "[", "]", "\"", ":", ",", "null", "\\u0000", "\xff\xfe", "video", "codec=", "format=%25%", "%"};
  for (size_t n = 1 + r.below(3); n > 0; n--) {
    if (t.empty()) {
      t = bits[r.below(sizeof(bits) / sizeof(*bits))];
      continue;
    }
    if (r.chance(0.35) && otherJsonValue(r, t)) {
      continue;
    }
    switch (r.below(6)) {
      case 0:
      case 1: { // another number
        vector<pair<size_t, size_t>> nums;
        for (size_t i = 0; i < t.size();) {
          if (isdigit(static_cast<unsigned char>(t[i]))) {
            size_t j = i;
            while (j < t.size() && isdigit(static_cast<unsigned char>(t[j]))) {
              j++;
            }
            nums.emplace_back(i, j - i);
            i = j;
          } else {
            i++;
          }
        }
        if (!nums.empty()) {
          auto p = nums[r.below(nums.size())];
          t.replace(p.first, p.second, r.chance(0.7) ? numbers[r.below(sizeof(numbers) / sizeof(*numbers))] : to_string(r.next() >> r.below(64)));
        }
        break;
      }
      case 2: // drop a part
        t.erase(r.below(t.size()), 1 + r.below(12));
        break;
      case 3: { // repeat a part
        size_t a = r.below(t.size());
        t.insert(a, t.substr(a, 1 + r.below(20)));
        break;
      }
      case 4:
        t.insert(r.below(t.size() + 1), bits[r.below(sizeof(bits) / sizeof(*bits))]);
        break;
      default:
        t[r.below(t.size())] = static_cast<char>(r.next());
    }
  }
  return t;
}

// ---- real media ----------------------------------------------------------------------------------------------------
struct MediaStream : public Stream {
  using Stream::Stream;
};

Bytes flip(Rng& r, Bytes b, size_t most) {
  for (size_t n = r.below(most + 1); n > 0 && !b.empty(); n--) {
    size_t at = r.below(b.size());
    switch (r.below(4)) {
      case 0:
        b[at] ^= static_cast<uint8_t>(1u << r.below(8));
        break;
      case 1:
        b[at] = r.pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff});
        break;
      case 2:
        b[at] = static_cast<uint8_t>(r.next());
        break;
      default:
        if (r.chance(0.3)) {
          b.resize(at);
        } else {
          b.insert(b.begin() + static_cast<ptrdiff_t>(at), b[r.below(b.size())]);
        }
    }
  }
  return b;
}

Bytes realImage(Rng& r, ImageFormat f) {
  PixelFormat pf = r.pick({PixelFormat::GREY8, PixelFormat::RGB8});
  uint32_t w = 1 + static_cast<uint32_t>(r.below(40)), h = 1 + static_cast<uint32_t>(r.below(40));
  utils::PixelFrame frame(pf, w, h);
  Bytes px = randomPayload(r, frame.size());
  memcpy(frame.wdata(), px.data(), px.size());
  Bytes out;
  if (f == ImageFormat::JPG) {
    frame.jpgCompress(out, 80);
  } else {
    frame.writeAsPng("", &out);
  }
  return out;
}

int mediaFile(Case& c, const string& path) {
  auto& r = c.rng;
  RecordFileWriter w;
  vector<unique_ptr<MediaStream>> streams;
  double ts = 0;
  for (size_t n = 1 + r.below(3); n > 0; n--) {
    streams.push_back(make_unique<MediaStream>(r.pick({RecordableTypeId::ForwardCameraRecordableClass, RecordableTypeId::MonoAudioRecordableClass, RecordableTypeId::UnitTest1}), "media/x"));
    auto& s = *streams.back();
    s.autoConfig = s.autoState = false;
    w.addRecordable(&s);
    s.setCompression(randomPreset(r, false));
    int kind = static_cast<int>(r.below(4));
    if (kind < 2) {
      ImageFormat f = kind == 0 ? ImageFormat::JPG : ImageFormat::PNG;
      s.addRecordFormat(Record::Type::DATA, 1, RecordFormat(ContentBlock(f)));
      for (size_t k = 1 + r.below(5); k > 0; k--) {
        s.add(ts += 0.1, Record::Type::DATA, 1, flip(r, realImage(r, f), r.pick<size_t>({0, 1, 5, 40})));
      }
    } else if (kind == 2) {
      // opus
      AudioContentBlockSpec spec(AudioFormat::OPUS, AudioSampleFormat::S16_LE, static_cast<uint8_t>(1 + r.below(4)), 0, 48000, 960);
      s.addRecordFormat(Record::Type::DATA, 1, RecordFormat(ContentBlock(spec, ContentBlock::kSizeUnknown)));
      utils::AudioCompressionHandler enc;
      if (enc.create(spec)) {
        vector<int16_t> in(960 * spec.getChannelCount());
        for (size_t k = 1 + r.below(5); k > 0; k--) {
          for (auto& v : in) {
            v = static_cast<int16_t>(r.next());
          }
          Bytes out(8000);
          int len = enc.compress(in.data(), 960, out.data(), out.size());
          if (len > 0) {
            out.resize(static_cast<size_t>(len));
            s.add(ts += 0.02, Record::Type::DATA, 1, flip(r, out, r.pick<size_t>({0, 1, 5, 40})));
          }
        }
      }
    } else {
      // raw images whose description does not fit
      uint32_t big = r.pick<uint32_t>({16, 100, 65536, 70000, 0x10000000, 0xffffffff});
      auto pf = static_cast<PixelFormat>(1 + r.below(static_cast<uint64_t>(PixelFormat::COUNT) - 1));
      s.addRecordFormat(Record::Type::DATA, 1, RecordFormat(ContentBlock(pf, big, r.pick<uint32_t>({4, 65536, 0xffffffff}), r.chance(0.4) ? big / 2 : 0, r.chance(0.3) ? 7 : 0)));
      for (size_t k = 1 + r.below(5); k > 0; k--) {
        s.add(ts += 0.02, Record::Type::DATA, 1, randomPayload(r, r.below(20000)));
      }
    }
  }
  return w.writeToFile(path);
}

// ---- bytes ---------------------------------------------------------------------------------------------------------
struct Files {
  vector<pair<string, Bytes>> parts; // file name, content
};
Files load(const string& path) {
  Files f;
  string dir = path.substr(0, path.rfind('/')), name = path.substr(path.rfind('/') + 1);
  for (auto& n : vh::listDir(dir)) {
    if (n.compare(0, name.size(), name) == 0) {
      f.parts.emplace_back(n, vh::slurp(dir + "/" + n));
    }
  }
  return f;
}
void store(const Files& f, const string& dir) {
  for (auto& p : f.parts) {
    vh::spew(dir + "/" + p.first, p.second.data(), p.second.size());
  }
}

template <class T>
void put(Bytes& b, size_t at, T v) {
  if (at <= b.size() && b.size() - at >= sizeof(T)) {
    memcpy(b.data() + at, &v, sizeof(T));
  }
}
template <class T>
T get(const Bytes& b, size_t at) {
  T v{};
  if (at <= b.size() && b.size() - at >= sizeof(T)) {
    memcpy(&v, b.data() + at, sizeof(T));
  }
  return v;
}
uint64_t oddValue(Rng& r, uint64_t now, uint64_t size) {
  switch (r.below(10)) {
    case 0:
      return 0;
    case 1:
      return now + 1;
    case 2:
      return now - 1;
    case 3:
      return size;
    case 4:
      return size - 1 - r.below(64);
    case 5:
      return 0xffffffffffffffffULL >> r.below(64);
    case 6:
      return 1ULL << r.below(64);
    case 7:
      return now ^ (1ULL << r.below(32));
    case 8:
      return r.below(100);
    default:
      return r.next();
  }
}

// offsets of the record headers of a chunk, as far as they can be followed
vector<size_t> headersOf(const Bytes& b, size_t start) {
  vector<size_t> v;
  size_t at = start;
  while (at + sizeof(FileFormat::RecordHeader) <= b.size() && v.size() < 10000) {
    v.push_back(at);
    uint32_t size = get<uint32_t>(b, at);
    if (size < sizeof(FileFormat::RecordHeader)) {
      break;
    }
    at += size;
  }
  return v;
}

// rewrites a record of the file with its payload decompressed, changed and compressed again (the record keeps its place
// when it fits, or moves to the end of the file with the header linking to it when it is the index)
bool hostileIndex(Rng& r, Files& f) {
  Bytes& head = f.parts[0].second;
  size_t at = get<uint64_t>(head, offsetof(FileFormat::FileHeader, indexRecordOffset));
  Bytes& last = f.parts.back().second;
  size_t offset = 0;
  for (size_t k = 0; k + 1 < f.parts.size(); k++) {
    offset += f.parts[k].second.size();
  }
  Bytes* part = &head;
  size_t local = at;
  if (at >= head.size() && f.parts.size() > 1 && at >= offset) {
    part = &last;
    local = at - offset;
  }
  if (at == 0 || part->size() < sizeof(FileFormat::RecordHeader) ||
      local > part->size() - sizeof(FileFormat::RecordHeader)) {
    return false;
  }
  auto h = get<FileFormat::RecordHeader>(*part, local);
  size_t dataAt = local + sizeof(h);
  size_t dataSize = min<size_t>(h.recordSize - sizeof(h), part->size() - dataAt);
  Bytes data(part->begin() + static_cast<ptrdiff_t>(dataAt), part->begin() + static_cast<ptrdiff_t>(dataAt + dataSize));
  // classic index: count of streams, streams, count of records, then (maybe compressed) the records
  uint32_t streams = get<uint32_t>(data, 0);
  size_t prelude = h.formatVersion == 2 ? 8 + static_cast<size_t>(streams) * 6 : 0;
  if (prelude > data.size()) {
    prelude = 0;
  }
  Bytes body(data.begin() + static_cast<ptrdiff_t>(prelude), data.end());
  bool packed = h.compressionType == static_cast<uint8_t>(CompressionType::Zstd);
  if (packed && h.uncompressedSize < 10000000) {
    Bytes un(h.uncompressedSize);
    size_t n = ZSTD_decompress(un.data(), un.size(), body.data(), body.size());
    if (ZSTD_isError(n)) {
      return false;
    }
    un.resize(n);
    body = un;
  }
  const size_t entry = 19;
  for (size_t n = 1 + r.below(4); n > 0; n--) {
    switch (r.below(5)) {
      case 0:
        if (body.size() > entry) {
          size_t e = r.below(body.size() / entry) * entry + r.pick<size_t>({0, 8, 12, 16, 18});
          put<uint32_t>(body, e, static_cast<uint32_t>(oddValue(r, get<uint32_t>(body, e), at)));
        }
        break;
      case 1:
        body = flip(r, body, 5);
        break;
      case 2:
        if (body.size() > entry && r.chance(0.5)) {
          body.resize(body.size() - entry * (1 + r.below(body.size() / entry)));
        } else if (body.size() > entry) {
          Bytes copy(body.begin(), body.begin() + static_cast<ptrdiff_t>(entry * (1 + r.below(body.size() / entry))));
          body.insert(body.end(), copy.begin(), copy.end());
        }
        break;
      case 3:
        if (prelude > 0) {
          put<uint32_t>(data, r.chance(0.5) ? 0 : prelude - 4, static_cast<uint32_t>(oddValue(r, get<uint32_t>(data, prelude - 4), body.size())));
        }
        break;
      default:
        h.uncompressedSize = static_cast<uint32_t>(oddValue(r, h.uncompressedSize, body.size()));
    }
  }
  bool right = r.chance(0.7);
  bool pack = right ? packed : r.chance(0.5);
  if (pack) {
    Bytes out(ZSTD_compressBound(body.size()));
    size_t n = ZSTD_compress(out.data(), out.size(), body.data(), body.size(), 3);
    out.resize(n);
    if (right) {
      h.uncompressedSize = static_cast<uint32_t>(body.size() + prelude);
    }
    body = out;
  }
  h.compressionType = static_cast<uint8_t>(pack ? CompressionType::Zstd : CompressionType::None);
  data.resize(prelude);
  data.insert(data.end(), body.begin(), body.end());
  h.recordSize = static_cast<uint32_t>(sizeof(h) + data.size());
  // at the end
  if (part == &last || f.parts.size() == 1) {
    put<uint64_t>(head, offsetof(FileFormat::FileHeader, indexRecordOffset), offset + last.size());
    auto* p = reinterpret_cast<uint8_t*>(&h);
    last.insert(last.end(), p, p + sizeof(h));
    last.insert(last.end(), data.begin(), data.end());
  } else {
    part->resize(local);
    auto* p = reinterpret_cast<uint8_t*>(&h);
    part->insert(part->end(), p, p + sizeof(h));
    part->insert(part->end(), data.begin(), data.end());
  }
  return true;
}

// A record header may claim up to 4 GB, and readers may believe it, which is too much for several processes on one
// machine: bring the largest claims down. (starts: where headers are in the original file)
void tame(Files& f, const vector<vector<size_t>>& starts) {
  for (size_t k = 0; k < f.parts.size(); k++) {
    Bytes& b = f.parts[k].second;
    auto one = [&](size_t at) {
      for (size_t o : {size_t(0), offsetof(FileFormat::RecordHeader, uncompressedSize)}) {
        uint32_t v = get<uint32_t>(b, at + o);
        if (v >= 0x10000000) {
          put<uint32_t>(b, at + o, v & 0xfffffff);
        }
      }
    };
    size_t pos = k == 0 ? get<uint32_t>(b, 16) : 0;
    for (size_t at : headersOf(b, pos)) {
      one(at);
    }
    for (size_t at : headersOf(b, pos)) {
      one(at);
    }
    if (k < starts.size()) {
      for (size_t at : starts[k]) {
        one(at);
      }
    }
  }
}

string mutate(Case& c, Files& f) {
  auto& r = c.rng;
  size_t k = r.chance(0.8) ? 0 : r.below(f.parts.size());
  Bytes& b = f.parts[k].second;
  uint64_t total = 0;
  for (auto& p : f.parts) {
    total += p.second.size();
  }
  switch (r.below(11)) {
    case 0: { // a field of the file header
      size_t at = r.pick<size_t>({0, 4, 8, 16, 20, 24, 28, 32, 36, 40, 44, 48, 72, 76});
      if (at >= 24 && at < 72) {
        put<uint64_t>(b, at & ~size_t(7), oddValue(r, get<uint64_t>(b, at & ~size_t(7)), total));
      } else {
        put<uint32_t>(b, at, static_cast<uint32_t>(oddValue(r, get<uint32_t>(b, at), total)));
      }
      return "file header";
    }
    case 1:
    case 2: { // a field of a record header
      auto h = headersOf(b, k == 0 ? get<uint32_t>(b, 16) : 0);
      if (h.empty()) {
        return "nothing";
      }
      size_t at = (r.chance(0.3) ? h[r.below(min<size_t>(h.size(), 2))] : h[r.below(h.size())]) + r.pick<size_t>({0, 0, 0, 4, 8, 12, 24, 28, 28});
      if (r.chance(0.2)) {
        at = h[r.below(h.size())] + r.pick<size_t>({26, 27});
        if (at < b.size()) {
          b[at] = r.chance(0.7) ? static_cast<uint8_t>(r.below(6)) : static_cast<uint8_t>(r.next());
        }
      } else if (r.chance(0.1)) {
        put<double>(b, h[r.below(h.size())] + 16, r.pick({0.0, -1e300, 1e308, static_cast<double>(NAN), static_cast<double>(INFINITY)}));
      } else {
        put<uint32_t>(b, at, static_cast<uint32_t>(oddValue(r, get<uint32_t>(b, at), b.size())));
      }
      return "record header";
    }
    case 3: // a size in the description
    case 4: {
      if (b.size() > 200) {
        size_t limit = min<size_t>(b.size() - 8, 112 + 3000);
        // sizes are small numbers: find one
        for (size_t tries = 0; tries < 200; tries++) {
          size_t at = 112 + r.below(limit - 112);
          uint32_t v = get<uint32_t>(b, at);
          if (v < 5000) {
            put<uint32_t>(b, at, static_cast<uint32_t>(oddValue(r, v, b.size())));
            break;
          }
        }
      }
      return "description";
    }
    case 5: // numbers in texts
      if (b.size() > 200) {
        size_t limit = min<size_t>(b.size(), 20000);
        vector<size_t> digits;
        for (size_t i = 112; i < limit; i++) {
          if (isdigit(b[i])) {
            digits.push_back(i);
          }
        }
        for (size_t n = 1 + r.below(4); n > 0 && !digits.empty(); n--) {
          size_t i = digits[r.below(digits.size())];
          do {
            b[i] = static_cast<uint8_t>(r.chance(0.7) ? '9' : '0' + r.below(10));
          } while (++i < b.size() && isdigit(b[i]));
        }
      }
      return "text";
    case 6:
      if (!b.empty()) {
        b.resize(r.chance(0.5) ? r.below(b.size() + 1) : b.size() - min<size_t>(b.size(), r.below(200)));
      }
      return "truncated";
    case 7: { // parts moved around
      if (b.size() > 10) {
        size_t from = r.below(b.size()), n = min<size_t>(b.size() - from, 1 + r.skewed(2000)), to = r.below(b.size());
        Bytes piece(b.begin() + static_cast<ptrdiff_t>(from), b.begin() + static_cast<ptrdiff_t>(from + n));
        if (r.chance(0.5)) {
          b.insert(b.begin() + static_cast<ptrdiff_t>(to), piece.begin(), piece.end());
        } else {
          memcpy(b.data() + to, piece.data(), min(n, b.size() - to));
        }
      }
      return "moved";
    }
    case 8:
    case 9:
      return hostileIndex(r, f) ? "index" : "nothing";
    default:
      for (size_t n = 1 + r.skewed(20); n > 0 && !b.empty(); n--) {
        size_t at = r.chance(0.5) ? r.below(b.size()) : r.below(min<size_t>(b.size(), 400));
        b[at] = r.chance(0.5) ? static_cast<uint8_t>(r.next()) : static_cast<uint8_t>(b[at] ^ (1u << r.below(8)));
      }
      return "bytes";
  }
}

// ---- everything that reads ------------------------------------------------------------------------------------------
struct Hungry : public RecordFormatStreamPlayer {
  Case& c;
  size_t blocks{}, frames{}, sounds{};
  ostringstream text;
  utils::AudioDecompressionHandler opus;
  explicit Hungry(Case& c) : c(c) {}
  bool onDataLayoutRead(const CurrentRecord&, size_t, DataLayout& l) override {
    blocks++;
    text.str("");
    l.printLayout(text);
    l.printLayoutCompact(text);
    l.asJson(JsonFormatProfileSpec(JsonFormatProfile::ExternalPretty));
    l.isVarDataIndexValid();
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    blocks++;
    unique_ptr<utils::PixelFrame> frame;
    bool ok;
    if (cb.image().getImageFormat() == ImageFormat::RAW && c.rng.chance(0.3)) {
      ok = utils::PixelFrame::readRawFrame(frame, r.reader, cb.image());
    } else {
      ok = utils::PixelFrame::readFrame(frame, r.reader, cb);
    }
    if (ok) {
      frames++;
      shared_ptr<utils::PixelFrame> source(frame.release()), out;
      if (source->getImageFormat() == ImageFormat::RAW && source->size() < 4000000) {
        utils::PixelFrame::normalizeFrame(source, out, c.rng.chance(0.5));
        if (out) {
          Bytes png;
          out->writeAsPng("", &png);
        }
      }
    }
    return ok;
  }
  bool onAudioRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    blocks++;
    utils::AudioBlock block;
    if (block.readBlock(r.reader, cb)) {
      sounds++;
      utils::AudioBlock out;
      if (block.getAudioFormat() == AudioFormat::OPUS) {
        out.init(AudioContentBlockSpec(AudioFormat::PCM, AudioSampleFormat::S16_LE, cb.audio().getChannelCount(), 0, cb.audio().getSampleRate(), cb.audio().getSampleCount()));
        block.decompressAudio(opus);
      }
      return true;
    }
    return false;
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    blocks++;
    Bytes b(min<size_t>(cb.getBlockSize(), r.reader->getUnreadBytes()));
    return b.empty() || r.reader->read(b) == 0;
  }
};

void query(Case& c, RecordFileReader& rd) {
  auto& r = c.rng;
  const auto& index = rd.getIndex();
  for (auto& id : rd.getStreams()) {
    rd.getTags(id);
    rd.getFlavor(id);
    rd.getSerialNumber(id);
    rd.getOriginalRecordableTypeName(id);
    rd.mightContainImages(id);
    rd.mightContainAudio(id);
    RecordFormatMap formats;
    rd.getRecordFormats(id, formats);
    for (auto& f : formats) {
      f.second.asString();
      f.second.getRecordSize();
      for (size_t k = 0; k < f.second.getUsedBlocksCount(); k++) {
        auto l = rd.getDataLayout(id, ContentBlockId(id.getTypeId(), f.first.first, f.first.second, k));
        if (l) {
          l->asJson();
        }
      }
    }
    for (size_t k = 0; k < 6; k++) {
      auto type = static_cast<Record::Type>(r.below(5));
      double t = index.empty() ? 0 : index[r.below(index.size())].timestamp + r.pick({0.0, 0.1, -0.1});
      rd.getRecord(id, static_cast<uint32_t>(r.below(20)));
      rd.getRecord(id, type, static_cast<uint32_t>(r.below(20)));
      rd.getLastRecord(id, type);
      rd.getRecordByTime(id, t);
      rd.getRecordByTime(id, type, t);
      auto* n = rd.getNearestRecordByTime(t, 0.5, id, type);
      if (n) {
        rd.getRecordIndex(n);
        rd.getRecordStreamIndex(n);
      }
      rd.getRecordCount(id, type);
    }
  }
  for (uint32_t k = 0; k < index.size() && k < 50; k++) {
    rd.getRecordSize(k, r.chance(0.5));
  }
  rd.getFirstDataRecordTime();
  rd.getStreamsSignature();
  rd.getFileChunks();
}

void runCase(Case& c) {
  auto& r = c.rng;
  string dir = c.file("src");
  mkdir(dir.c_str(), 0700);
  string path = dir + "/base.vrs";
  string base;
  int kind = static_cast<int>(r.below(4));
  if (kind == 0) {
    PlanOptions o;
    o.maxRecords = r.chance(0.2) ? 400 : 40;
    o.engines = false;
    o.extremes = r.chance(0.3);
    Plan p = randomPlan(r, o);
    execute(p, path);
    base = vh::sf("plain%d", static_cast<int>(p.how));
  } else if (kind == 1) {
    mediaFile(c, path);
    base = "media";
  } else {
    RichOptions o;
    o.maxRecords = r.chance(0.15) ? 150 : 25;
    RichPlan p = makeRich(r, o);
    base = "rich";
    if (kind == 3) {
      base = "hostile text";
      for (auto& s : p.streams) {
        auto& tags = const_cast<map<string, string>&>(s->getVRSTags());
        for (auto& t : tags) {
          if (t.first.size() > 3 && (t.first.compare(0, 3, "RF:") == 0 || t.first.compare(0, 3, "DL:") == 0) && r.chance(0.35)) {
            t.second = hostileText(r, t.second);
          }
        }
      }
    }
    if (r.chance(0.5)) { // hostile contents
      for (auto& s : p.streams) {
        for (size_t n = r.below(8); n > 0 && !s->rich.empty(); n--) {
          const Rec m = s->rich[r.below(s->rich.size())].rec;
          s->add(m.ts + 0.0004, m.type, m.ver, flip(r, m.data, 6));
        }
      }
    }
    writeRich(p, path);
  }
  Files good = load(path);
  if (good.parts.empty()) {
    return;
  }
  if (kind == 0 && good.parts.size() > 1) { // the first one is the one that opens
    sort(good.parts.begin(), good.parts.end());
  }
  vector<vector<size_t>> starts;
  for (size_t k = 0; k < good.parts.size(); k++) {
    starts.push_back(headersOf(good.parts[k].second, k == 0 ? get<uint32_t>(good.parts[k].second, 16) : 0));
  }
  vh::wipeDir(dir);
  size_t variants = 6;
  size_t opened = 0, refused = 0;
  string kinds;
  for (size_t v = 0; v < variants; v++) {
    Files f = good;
    size_t changes = kind == 0 || kind == 2 ? 1 + r.skewed(3) : r.below(2);
    string what;
    for (size_t k = 0; k < changes; k++) {
      string m = mutate(c, f);
      what += m + " ";
      c.count("mutation:" + m);
    }
    if (changes > 0) {
      tame(f, starts);
    }
    kinds += what + "|";
    if (changes == 0) {
      v = variants; // once is enough
    }
    store(f, dir);
    string first = dir + "/" + f.parts[0].first;
    uint64_t fileSize = 0;
    for (auto& p : f.parts) {
      fileSize += p.second.size();
    }
    c.count("files");
    bool repair = r.chance(0.2);
    {
      RecordFileReader rd;
      rd.isVrsFile(first);
      int status = rd.openFile(first, repair);
      if (status != 0) {
        refused++;
      } else {
        opened++;
        c.count(rd.hasIndex() ? "opened_with_index" : "opened_without_index");
        query(c, rd);
        Hungry h(c);
        for (auto& id : rd.getStreams()) {
          rd.setStreamPlayer(id, &h);
        }
        if (r.chance(0.7)) {
          rd.readAllRecords();
        } else {
          auto& index = rd.getIndex();
          for (size_t k = 0; k < 30 && !index.empty(); k++) {
            rd.readRecord(index[r.below(index.size())]);
          }
        }
        c.count("blocks", static_cast<int64_t>(h.blocks));
        c.count("frames", static_cast<int64_t>(h.frames));
        c.count("sounds", static_cast<int64_t>(h.sounds));
        rd.clearStreamPlayers();
        if (r.chance(0.3)) {
          FileDetailsCache::write(c.file("details"), rd.getStreams(), rd.getTags(), rd.getStreamTags(), rd.getIndex(), rd.hasIndex());
          set<StreamId> ids;
          map<string, string> tags;
          map<StreamId, StreamTags> st;
          vector<IndexRecord::RecordInfo> idx;
          bool has;
          FileDetailsCache::read(c.file("details"), ids, tags, st, idx, has);
        }
      }
    }
    // the tools
    using cli::Command;
    static const Command commands[] = {Command::Details, Command::Copy, Command::Merge, Command::Check, Command::Decode, Command::Checksum, Command::Checksums, Command::ChecksumVerbatim, Command::Hexdump, Command::Compare, Command::CompareVerbatim,
                                       Command::Debug, Command::PrintRecordFormats, Command::ListRecords, Command::PrintRecords, Command::PrintRecordsDetailed, Command::PrintRecordsJson, Command::PrintRecordsJsonPretty, Command::Rage,
                                       Command::ExtractImages, Command::ExtractAudio, Command::ExtractAll, Command::JsonDescription, Command::JsonPrettyDescription};
    for (size_t k = 0; k < 2; k++) {
      cli::VrsCommand cmd;
      cmd.cmd = commands[r.below(sizeof(commands) / sizeof(*commands))];
      cmd.copyOptions.showProgress = false;
      cmd.targetPath = c.file("out");
      if (cmd.cmd == Command::Copy || cmd.cmd == Command::Merge) {
        cmd.targetPath += ".vrs";
        if (cmd.cmd == Command::Merge) {
          cmd.otherFilteredReaders.emplace_back();
          cmd.otherFilteredReaders.back().setSource(first);
        }
      } else if (cmd.cmd == Command::Compare || cmd.cmd == Command::CompareVerbatim) {
        cmd.otherFilteredReaders.emplace_back();
        cmd.otherFilteredReaders.back().setSource(first);
      }
      cmd.extractImagesRaw = r.chance(0.3);
      cmd.filteredReader.setSource(first);
      if (cmd.openVrsFile()) {
        cmd.runCommands();
        c.count("commands");
      }
    }
    if (r.chance(0.15)) {
      MultiRecordFileReader multi;
      string other = c.file("other.vrs");
      vh::spew(other, good.parts[0].second.data(), good.parts[0].second.size());
      if (multi.open({first, other}) == 0) {
        for (auto* rec : {multi.getRecord(0), multi.getRecord(1)}) {
          if (rec) {
            multi.getRecordIndex(rec);
            multi.getUniqueStreamId(rec);
          }
        }
        multi.close();
        c.count("multi");
      }
    }
    vh::wipeDir(dir);
    vh::wipeDir(c.file("out"));
  }
  c.count("refused", static_cast<int64_t>(refused));
  c.count("base:" + base);
  c.signature(vh::sf("%s %zu %zu %s", base.c_str(), opened, refused, kinds.c_str()));
}
} // namespace

VH_MAIN()
