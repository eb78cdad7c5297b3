// C22: audio extraction and conversion. Recordings with audio of every sample format, described by the record format, by
// metadata in the record or by the configuration record, with format changes, padded frames, empty, odd and damaged
// blocks, and Opus packets made with libopus itself. Sound files are read by our own strict WAV reader.
// Modes: default (a folder of files), track (a single sound track and its summary), opus (audio blocks and codecs).
// USES: core utils
// WITH: vrsgen
// OPT: -O1
#include "vrsgen.h"

#include <cmath>
#include <limits>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordReaders.h>
#include <vrs/helpers/Rapidjson.hpp>
#include <vrs/utils/AudioBlock.h>
#include <vrs/utils/AudioExtractor.h>
#include <vrs/utils/AudioTrackExtractor.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/cli/DataExtraction.h>

#include <opus.h>
#include <opus_multistream.h>

#include <sys/resource.h>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using vg::Bytes;
using vh::Case;
using vh::Rng;

namespace {

using ASF = AudioSampleFormat;

// sample formats, from the documentation of the format
struct Sample {
  const char* name;
  unsigned bytes;
  char kind; // s(igned) u(nsigned) f(loat) a(law) m(ulaw)
  bool big;
};
const Sample kSamples[] = {
    {"undefined", 0, '-', false}, {"int8", 1, 's', false}, {"uint8", 1, 'u', false}, {"uint8alaw", 1, 'a', false}, {"uint8mulaw", 1, 'm', false},
    {"int16le", 2, 's', false}, {"uint16le", 2, 'u', false}, {"int16be", 2, 's', true}, {"uint16be", 2, 'u', true},
    {"int24le", 3, 's', false}, {"uint24le", 3, 'u', false}, {"int24be", 3, 's', true}, {"uint24be", 3, 'u', true},
    {"int32le", 4, 's', false}, {"uint32le", 4, 'u', false}, {"int32be", 4, 's', true}, {"uint32be", 4, 'u', true},
    {"float32le", 4, 'f', false}, {"float32be", 4, 'f', true}, {"float64le", 8, 'f', false}, {"float64be", 8, 'f', true}};

struct Spec {
  bool opus{};
  unsigned sample{}, ch{}, rate{}, stride{}, pairs{}; // stride 0: frames are packed
  unsigned tight() const {
    return kSamples[sample].bytes * ch;
  }
  unsigned frame() const {
    return stride ? stride : tight();
  }
  bool sameSound(const Spec& o) const {
    return sample == o.sample && ch == o.ch && rate == o.rate;
  }
  string text() const {
    return vh::sf("%s %s %u channels (%u pairs) %u Hz stride %u", opus ? "opus" : "pcm", kSamples[sample].name, ch, pairs, rate, stride);
  }
};

const unsigned kOpusRates[] = {8000, 12000, 16000, 24000, 48000};

Spec randomSpec(Rng& r, bool opus, unsigned maxStride) {
  Spec s;
  s.opus = opus;
  if (opus) {
    s.sample = static_cast<unsigned>(ASF::S16_LE);
    s.rate = kOpusRates[r.below(5)];
    s.ch = static_cast<unsigned>(r.chance(0.9) ? 1 + r.below(4) : 1 + r.below(40));
    s.pairs = static_cast<unsigned>(r.below(s.ch / 2 + 1));
    return s;
  }
  s.sample = static_cast<unsigned>(1 + r.below(static_cast<uint64_t>(ASF::COUNT) - 1));
  s.ch = static_cast<unsigned>(r.chance(0.8) ? 1 + r.below(3) : r.chance(0.8) ? 1 + r.below(12) : 1 + r.below(255));
  s.rate = static_cast<unsigned>(r.chance(0.7) ? r.pick({8000, 16000, 44100, 48000, 96000}) : 1 + r.skewed(4000000));
  s.pairs = static_cast<unsigned>(r.chance(0.2) ? r.below(s.ch / 2 + 1) : 0);
  if (r.chance(0.3)) {
    unsigned most = static_cast<unsigned>(min<uint64_t>(s.tight() + 3u * s.ch, maxStride));
    if (most >= s.tight()) {
      s.stride = static_cast<unsigned>(s.tight() + r.below(most - s.tight() + 1));
    }
  }
  return s;
}

// what the frames are in a sound file
void appendSound(Bytes& out, const Spec& s, const uint8_t* data, size_t frames) {
  const Sample& k = kSamples[s.sample];
  for (size_t f = 0; f < frames; f++) {
    const uint8_t* p = data + f * s.frame();
    for (unsigned c = 0; c < s.ch; c++, p += k.bytes) {
      uint8_t v[8];
      for (unsigned b = 0; b < k.bytes; b++) {
        v[b] = p[k.big ? k.bytes - 1 - b : b];
      }
      // sound files have unsigned 8 bit samples, and signed ones otherwise
      if ((k.bytes == 1 && k.kind == 's') || (k.bytes > 1 && k.kind == 'u')) {
        v[k.bytes - 1] ^= 0x80;
      }
      out.insert(out.end(), v, v + k.bytes);
    }
  }
}

struct Wav {
  string error;
  unsigned format{}, ch{}, rate{}, bits{};
  Bytes data;
};

Wav readWav(const string& path) {
  Wav w;
  Bytes b = vh::slurp(path);
  auto u16 = [&](size_t o) { return b[o] | b[o + 1] << 8; };
  auto u32 = [&](size_t o) { return static_cast<uint32_t>(b[o]) | b[o + 1] << 8 | b[o + 2] << 16 | static_cast<uint32_t>(b[o + 3]) << 24; };
  if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) || memcmp(b.data() + 8, "WAVE", 4)) {
    w.error = vh::sf("not a sound file (%zu bytes)", b.size());
    return w;
  }
  if (u32(4) != b.size() - 8) {
    w.error = vh::sf("the size is %zu, the header tells %u", b.size() - 8, u32(4));
    return w;
  }
  bool fmt = false, data = false;
  for (size_t o = 12; o < b.size();) {
    if (o + 8 > b.size()) {
      w.error = vh::sf("%zu stray bytes at the end", b.size() - o);
      return w;
    }
    size_t n = u32(o + 4), at = o + 8;
    if (at + n > b.size()) {
      w.error = vh::sf("a chunk of %zu bytes doesn't fit in the %zu bytes that remain", n, b.size() - at);
      return w;
    }
    if (!memcmp(b.data() + o, "fmt ", 4)) {
      if (n < 16 || fmt) {
        w.error = "bad format chunk";
        return w;
      }
      fmt = true;
      w.format = u16(at);
      w.ch = u16(at + 2);
      w.rate = u32(at + 4);
      w.bits = u16(at + 14);
      unsigned align = u16(at + 12);
      if (align != w.ch * ((w.bits + 7) / 8) || u32(at + 8) != align * w.rate) {
        w.error = vh::sf("inconsistent format: %u channels, %u bits, %u Hz, %u bytes per frame, %u bytes per second", w.ch, w.bits, w.rate, align, u32(at + 8));
        return w;
      }
    } else if (!memcmp(b.data() + o, "data", 4)) {
      if (!fmt || data) {
        w.error = "unexpected data chunk";
        return w;
      }
      data = true;
      w.data.assign(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
    }
    o = at + n + (n & 1);
    if (o > b.size()) {
      w.error = vh::sf("the chunk of %zu bytes isn't padded", n);
      return w;
    }
  }
  if (!fmt || !data) {
    w.error = "no format or no data";
  }
  return w;
}

string diffWav(const Wav& w, const Spec& s) {
  const Sample& k = kSamples[s.sample];
  unsigned format = k.kind == 'f' ? 3 : k.kind == 'a' ? 6 : k.kind == 'm' ? 7 : 1;
  if (w.format != format || w.ch != s.ch || w.rate != s.rate || w.bits != 8 * k.bytes) {
    return vh::sf("format %u, %u channels, %u Hz, %u bits instead of %u, %u, %u, %u", w.format, w.ch, w.rate, w.bits, format, s.ch, s.rate, 8 * k.bytes);
  }
  return {};
}

string diffBytes(const Bytes& got, const Bytes& expected, unsigned unit) {
  size_t n = min(got.size(), expected.size()), i = 0;
  while (i < n && got[i] == expected[i]) {
    i++;
  }
  if (i == n && got.size() == expected.size()) {
    return {};
  }
  unit = max(1u, unit);
  return vh::sf("%.2f frames instead of %.2f, first difference in frame %zu: %s instead of %s", got.size() * 1. / unit, expected.size() * 1. / unit, i / unit,
                vh::hex(got.data() + i, min<size_t>(12, got.size() - i)).c_str(), vh::hex(expected.data() + i, min<size_t>(12, expected.size() - i)).c_str());
}

// --- Opus, with libopus itself

struct Encoder {
  OpusMSEncoder* e{};
  Spec s;
  ~Encoder() {
    if (e) {
      opus_multistream_encoder_destroy(e);
    }
  }
  bool init(const Spec& spec) {
    s = spec;
    int err = 0;
    vector<uint8_t> map(s.ch);
    for (unsigned i = 0; i < s.ch; i++) {
      map[i] = static_cast<uint8_t>(i);
    }
    e = opus_multistream_encoder_create(static_cast<int>(s.rate), static_cast<int>(s.ch), static_cast<int>(s.ch - s.pairs), static_cast<int>(s.pairs), map.data(), OPUS_APPLICATION_AUDIO, &err);
    return e != nullptr && err == OPUS_OK;
  }
  Bytes encode(const vector<int16_t>& in) {
    Bytes out(200 + 1500 * s.ch);
    int n = opus_multistream_encode(e, in.data(), static_cast<int>(in.size() / s.ch), out.data(), static_cast<int>(out.size()));
    out.resize(n > 0 ? static_cast<size_t>(n) : 0);
    return out;
  }
};

struct Decoder { // a decoder, recreated whenever what it decodes changes
  OpusMSDecoder* d{};
  Spec s;
  ~Decoder() {
    if (d) {
      opus_multistream_decoder_destroy(d);
    }
  }
  bool supported(const Spec& spec) const {
    return spec.opus && spec.sample == static_cast<unsigned>(ASF::S16_LE) && find(begin(kOpusRates), end(kOpusRates), spec.rate) != end(kOpusRates) && spec.ch > 0 && spec.pairs * 2 <= spec.ch;
  }
  // told: the number of samples that the block is said to have; 0: not told
  bool decode(const Spec& spec, const Bytes& packet, uint32_t told, Bytes& out) {
    if (!supported(spec) || packet.empty()) {
      return false;
    }
    if (d && (spec.rate != s.rate || spec.ch != s.ch || spec.pairs != s.pairs)) {
      opus_multistream_decoder_destroy(d);
      d = nullptr;
    }
    if (!d) {
      int err = 0;
      vector<uint8_t> map(spec.ch);
      for (unsigned i = 0; i < spec.ch; i++) {
        map[i] = static_cast<uint8_t>(i);
      }
      d = opus_multistream_decoder_create(static_cast<int>(spec.rate), static_cast<int>(spec.ch), static_cast<int>(spec.ch - spec.pairs), static_cast<int>(spec.pairs), map.data(), &err);
      s = spec;
      if (!d) {
        return false;
      }
    }
    uint32_t most = spec.rate / 1000 * 120;
    uint32_t n = told == 0 ? most : min(told, most);
    vector<int16_t> pcm(static_cast<size_t>(n) * spec.ch);
    int got = opus_multistream_decode(d, packet.data(), static_cast<int>(packet.size()), pcm.data(), static_cast<int>(n), 0);
    if (got <= 0) {
      return false;
    }
    auto* p = reinterpret_cast<uint8_t*>(pcm.data());
    out.assign(p, p + static_cast<size_t>(got) * spec.ch * 2);
    return true;
  }
};

vector<int16_t> randomSound(Rng& r, unsigned ch, size_t frames) {
  vector<int16_t> v(frames * ch);
  int mode = static_cast<int>(r.below(3));
  for (size_t i = 0; i < v.size(); i++) {
    v[i] = mode == 0 ? static_cast<int16_t>(r.next()) : mode == 1 ? static_cast<int16_t>(9000 * sin(static_cast<double>(i / ch) * 0.05 * (1 + static_cast<double>(i % ch)))) : 0;
  }
  return v;
}
// durations of Opus packets, in tenths of ms
size_t randomFrames(Rng& r, unsigned rate) {
  return static_cast<size_t>(rate) * r.pick<unsigned>({25, 50, 100, 100, 200, 200, 400, 600, 800, 1000, 1200}) / 10000;
}

// --- recordings

struct SpecLayout : public AutoDataLayout {
  DataPieceValue<double> time{"time"};
  DataPieceEnum<AudioFormat, uint8_t> audioFormat{"audio_format"};
  DataPieceEnum<ASF, uint8_t> sampleType{"audio_sample_format"};
  DataPieceValue<uint8_t> sampleStride{"audio_sample_stride"};
  DataPieceValue<uint8_t> channelCount{"audio_channel_count"};
  DataPieceValue<uint32_t> sampleRate{"audio_sample_rate"};
  DataPieceValue<uint32_t> sampleCount{"audio_sample_count"};
  DataPieceValue<uint8_t> stereoPairCount{"audio_stereo_pair_count"};
  AutoDataLayoutEnd end;
  void put(const Spec& s, uint32_t count) {
    time.set(1);
    audioFormat.set(s.opus ? AudioFormat::OPUS : AudioFormat::PCM);
    sampleType.set(static_cast<ASF>(s.sample));
    sampleStride.set(static_cast<uint8_t>(s.stride));
    channelCount.set(static_cast<uint8_t>(s.ch));
    sampleRate.set(s.rate);
    sampleCount.set(count);
    stereoPairCount.set(static_cast<uint8_t>(s.pairs));
  }
};
struct PlainLayout : public AutoDataLayout {
  DataPieceValue<uint32_t> counter{"counter"};
  DataPieceString text{"text"};
  AutoDataLayoutEnd end;
};

struct Block { // an audio block as recorded
  Spec spec;
  double ts{};
  uint32_t told{}; // number of samples told, 0: not told
  Bytes bytes;
  bool readable{true}; // the size is consistent
};

ContentBlock textBlock(const Spec& s, uint32_t samples) {
  AudioContentBlockSpec a(AudioFormat::PCM, static_cast<ASF>(s.sample), static_cast<uint8_t>(s.ch), static_cast<uint16_t>(s.stride), s.rate, samples, static_cast<uint8_t>(s.pairs));
  return ContentBlock(a, ContentBlock::kSizeUnknown);
}

class Source : public Recordable {
 public:
  Source(RecordableTypeId type, const string& flavor) : Recordable(type, flavor) {}
  using Recordable::createRecord;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  SpecLayout specs;
  PlainLayout plain;
  vector<Block> blocks; // in order
  struct Fixed { // formats that tell everything
    Spec s;
    uint32_t samples{}; // 0: not told
    bool withLayout{};
    int second{-1}; // another audio block follows, like that of this format
  };
  vector<Fixed> fixed;
  bool haveConfig{};
  Spec config;
  set<pair<unsigned, unsigned>> rates; // encoders
  unique_ptr<Encoder> encoder;

  void setup(Rng& r, bool image) {
    addRecordFormat(Record::Type::DATA, 1, specs.getContentBlock() + ContentBlock(ContentType::AUDIO), {&specs});
    addRecordFormat(Record::Type::DATA, 2, ContentBlock(ContentType::AUDIO), {});
    addRecordFormat(Record::Type::DATA, 3, plain.getContentBlock() + ContentBlock(ContentType::AUDIO), {&plain});
    addRecordFormat(Record::Type::CONFIGURATION, 1, specs.getContentBlock(), {&specs});
    if (image) {
      addRecordFormat(Record::Type::DATA, 4, ContentBlock(ImageFormat::RAW) , {});
    }
    size_t n = r.below(5);
    for (size_t i = 0; i < n; i++) {
      Fixed f;
      f.s = !fixed.empty() && r.chance(0.3) ? fixed.back().s : randomSpec(r, false, 65535);
      f.samples = r.chance(0.4) ? static_cast<uint32_t>(1 + r.below(40)) : 0;
      f.withLayout = r.chance(0.4);
      if (f.samples > 0 && i > 0 && r.chance(0.4)) {
        f.second = static_cast<int>(r.below(i));
      }
      fixed.push_back(f);
      RecordFormat rf;
      vector<const DataLayout*> layouts;
      if (f.withLayout) {
        rf = plain.getContentBlock() + textBlock(f.s, f.samples);
        layouts.push_back(&plain);
      } else {
        rf = RecordFormat(textBlock(f.s, f.samples));
      }
      if (f.second >= 0) {
        rf + textBlock(fixed[static_cast<size_t>(f.second)].s, fixed[static_cast<size_t>(f.second)].samples);
      }
      addRecordFormat(Record::Type::DATA, static_cast<uint32_t>(100 + i), rf, layouts);
    }
  }

  // the content of a block, consistent or not
  void fill(Case& c, Block& b, bool countIsTold, bool hostile) {
    Rng& r = c.rng;
    if (b.spec.opus) {
      if (!encoder || encoder->s.rate != b.spec.rate || encoder->s.ch != b.spec.ch || encoder->s.pairs != b.spec.pairs) {
        encoder = make_unique<Encoder>();
        if (!encoder->init(b.spec)) {
          encoder.reset();
          b.bytes.clear();
          return;
        }
      }
      size_t frames = randomFrames(r, b.spec.rate);
      b.bytes = encoder->encode(randomSound(r, b.spec.ch, frames));
      b.told = countIsTold && r.chance(0.7) ? static_cast<uint32_t>(frames) : 0;
      if (hostile && r.chance(0.2)) {
        c.count("odd_packets");
        switch (r.below(5)) {
          case 0:
            b.bytes.resize(r.below(b.bytes.size() + 1));
            break;
          case 1:
            if (!b.bytes.empty()) {
              b.bytes[r.below(b.bytes.size())] ^= static_cast<uint8_t>(1 + r.below(255));
            }
            break;
          case 2:
            b.bytes = vg::randomPayload(r, r.below(300));
            break;
          case 3:
            b.bytes.clear();
            break;
          case 4:
            b.told = countIsTold ? static_cast<uint32_t>(r.pick<uint64_t>({1, frames - 1, frames + 1, frames * 2, 5760, 100000000, 0xffffffff})) : 0;
            break;
        }
      }
      return;
    }
    uint64_t frames = countIsTold && b.told ? b.told : r.chance(0.85) ? 1 + r.below(50) : r.chance(0.5) ? r.below(2) : 1 + r.skewed(60000);
    while (frames * b.spec.frame() > 2000000) {
      frames /= 2;
    }
    if (countIsTold && b.told && b.told != frames) {
      b.readable = false;
    }
    b.bytes = vg::randomPayload(r, frames * b.spec.frame());
    if (hostile && r.chance(0.1)) {
      c.count("odd_blocks");
      b.bytes.resize(r.chance(0.5) ? r.below(b.bytes.size() + 1) : b.bytes.size() + 1 + r.below(b.spec.frame() + 1));
    }
    b.readable = b.told ? b.bytes.size() == static_cast<size_t>(b.told) * b.spec.frame() : b.bytes.size() % b.spec.frame() == 0;
  }

  void add(Case& c, double& ts, bool opus, bool hostile, bool steady) {
    Rng& r = c.rng;
    auto later = [&] { ts += steady ? 0.01 * static_cast<double>(1 + r.below(3)) : r.chance(0.9) ? 0.001 + r.unit() : 1000. * r.unit() + 0.001; };
    later();
    if (!haveConfig || r.chance(steady ? 0.02 : 0.1)) {
      config = haveConfig && r.chance(0.4) ? config : randomSpec(r, opus && r.chance(0.6), 255);
      haveConfig = true;
      specs.put(config, 0);
      createRecord(ts, Record::Type::CONFIGURATION, 1, DataSource(specs));
      later();
    }
    Block b;
    b.ts = ts;
    size_t kind = r.below(steady ? 12 : 4);
    if (kind == 0 || (kind == 3 && fixed.empty())) { // told in the record
      b.spec = !blocks.empty() && r.chance(0.6) && blocks.back().spec.stride < 256 ? blocks.back().spec : randomSpec(r, opus && r.chance(0.6), 255);
      if (b.spec.stride && b.spec.stride > b.spec.tight() + 3 * b.spec.ch) {
        b.spec.stride = 0;
      }
      b.told = r.chance(0.5) && !b.spec.opus ? static_cast<uint32_t>(1 + r.below(60)) : 0;
      fill(c, b, true, hostile);
      specs.put(b.spec, b.told);
      createRecord(ts, Record::Type::DATA, 1, DataSource(specs, {b.bytes.data(), b.bytes.size()}));
      blocks.push_back(b);
    } else if (kind == 3) { // told by the record's format
      const Fixed& f = fixed[r.below(fixed.size())];
      b.spec = f.s;
      b.told = f.samples;
      fill(c, b, true, hostile && f.second < 0);
      Bytes all = b.bytes;
      if (f.samples > 0 && b.bytes.size() > static_cast<size_t>(f.samples) * b.spec.frame()) {
        b.bytes.resize(static_cast<size_t>(f.samples) * b.spec.frame()); // the format tells the size: what follows isn't audio
        b.readable = true;
      }
      blocks.push_back(b);
      if (f.second >= 0) {
        Block d;
        d.ts = ts;
        d.spec = fixed[static_cast<size_t>(f.second)].s;
        d.told = fixed[static_cast<size_t>(f.second)].samples;
        fill(c, d, true, false);
        all.insert(all.end(), d.bytes.begin(), d.bytes.end());
        d.readable = d.readable && b.readable;
        blocks.push_back(d);
        c.count("two_block_records");
      }
      uint32_t version = static_cast<uint32_t>(100 + (&f - fixed.data()));
      if (f.withLayout) {
        plain.counter.set(7);
        plain.text.stage(vg::randomText(r, r.below(20)));
        createRecord(ts, Record::Type::DATA, version, DataSource(plain, {all.data(), all.size()}));
      } else {
        createRecord(ts, Record::Type::DATA, version, DataSource(DataSourceChunk{all.data(), all.size()}));
      }
    } else {
      b.spec = config;
      fill(c, b, false, hostile);
      if (kind == 1) {
        createRecord(ts, Record::Type::DATA, 2, DataSource(DataSourceChunk{b.bytes.data(), b.bytes.size()}));
      } else {
        plain.counter.set(8);
        plain.text.stage(vg::randomText(r, r.below(20)));
        createRecord(ts, Record::Type::DATA, 3, DataSource(plain, {b.bytes.data(), b.bytes.size()}));
      }
      blocks.push_back(b);
    }
    c.count(blocks.back().spec.opus ? "opus_blocks" : "pcm_blocks");
  }
};

struct Sound { // a sound file that must be found
  Spec spec;
  double ts{};
  Bytes data;
  bool mayContinue{}; // only the padding of the frames changed: the same file may go on
  bool optional{}; // no sample
};

// what extracting the blocks of a stream must give
vector<Sound> expectedSounds(Case& c, const vector<Block>& blocks) {
  vector<Sound> sounds;
  Decoder decoder;
  for (auto& b : blocks) {
    if (!b.readable) {
      continue;
    }
    Spec s = b.spec;
    Bytes pcm;
    if (s.opus) {
      if (!decoder.decode(s, b.bytes, b.told, pcm)) {
        c.count("packets_refused");
        continue;
      }
      c.count("packets_decoded");
      s.stride = 0;
    } else {
      pcm = b.bytes;
    }
    if (sounds.empty() || !sounds.back().spec.sameSound(s) || sounds.back().spec.frame() != s.frame()) {
      Sound n;
      n.mayContinue = !sounds.empty() && sounds.back().spec.sameSound(s);
      n.spec = s;
      n.ts = b.ts;
      n.optional = true;
      sounds.push_back(n);
    }
    if (!pcm.empty()) {
      sounds.back().optional = false;
    }
    appendSound(sounds.back().data, s, pcm.data(), pcm.size() / s.frame());
  }
  return sounds;
}

struct Recording {
  vector<unique_ptr<Source>> sources;
  vector<StreamId> ids;
};

bool record(Case& c, Recording& rec, const string& path, size_t streams, bool opus, bool hostile, bool steady) {
  Rng& r = c.rng;
  for (size_t i = 0; i < streams; i++) {
    rec.sources.push_back(make_unique<Source>(r.pick({RecordableTypeId::AudioStream, RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2}), r.chance(0.3) ? "flavor/" + vg::randomText(r, 5) : "some/flavor"));
    rec.sources.back()->setup(r, false);
  }
  double ts = r.chance(0.8) ? 0 : r.pick({-1000., 1e6, 1e9});
  size_t n = r.below(steady ? 40 : 25);
  for (size_t i = 0; i < n; i++) {
    r.pick(rec.sources)->add(c, ts, opus, hostile, steady);
  }
  RecordFileWriter w;
  for (auto& s : rec.sources) {
    s->setCompression(r.pick({CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFast}));
    w.addRecordable(s.get());
    rec.ids.push_back(s->getStreamId());
  }
  return w.writeToFile(path) == 0;
}

size_t rss() {
  struct rusage u {};
  getrusage(RUSAGE_SELF, &u);
  return static_cast<size_t>(u.ru_maxrss) / 1024; // MB
}

void folderCase(Case& c) {
  Rng& r = c.rng;
  Recording rec;
  bool opus = r.chance(0.4), hostile = r.chance(0.4);
  string path = c.file("a.vrs");
  if (!record(c, rec, path, 1 + r.below(3), opus, hostile, r.chance(0.3))) {
    c.failNow("record", "can't make the recording");
  }
  FilteredFileReader f(path);
  c.check(f.openFile() == 0, "open", "can't open the recording");
  string dir = c.file(r.chance(0.5) ? "out" : "a/b/out");
  bool blocked = hostile && r.chance(0.08);
  bool twice = !blocked && r.chance(0.05);
  if (blocked) { // the folder goes away: nothing can be written
    vh::spew(c.file("file"), "x", 1);
    c.count("unwritable");
    for (auto id : f.filter.streams) {
      uint32_t counter = 0;
      auto extractor = make_unique<AudioExtractor>(c.file("file/inside"), id, counter);
      f.reader.setStreamPlayer(id, extractor.get());
      f.iterateSafe();
      extractor.reset();
      f.reader.clearStreamPlayers();
      c.check(counter == 0, "unwritable-counted", "%u sound files are said to be written where it's impossible", counter);
    }
    auto left = vh::slurp(c.file("file"));
    c.check(left.size() == 1 && left[0] == 'x', "unwritable-overwritten", "a file that was in the way was changed");
    c.signature(vh::sf("blocked%llu", (unsigned long long)c.number));
    return;
  }
  for (int pass = 0; pass <= twice; pass++) {
    int status = extractAudio(dir, f);
    c.check(status == 0, "extract-status", "extracting audio failed: %d", status);
  }
  map<string, map<unsigned, string>> found; // stream, count -> file
  for (auto& name : vh::listDir(dir)) {
    unsigned type = 0, inst = 0, count = 0;
    double t = 0;
    int used = 0;
    if (sscanf(name.c_str(), "%u-%u-%u-%lf.wav%n", &type, &inst, &count, &t, &used) != 4 || static_cast<size_t>(used) != name.size()) {
      c.fail("file-name", "unexpected file %s", name.c_str());
      continue;
    }
    found[vh::sf("%u-%u", type, inst)][count] = name;
  }
  string sig;
  size_t expectedStreams = 0;
  for (size_t i = 0; i < rec.ids.size(); i++) {
    StreamId id = rec.ids[i];
    auto sounds = expectedSounds(c, rec.sources[i]->blocks);
    auto files = found[id.getNumericName()];
    found.erase(id.getNumericName());
    expectedStreams += !sounds.empty();
    size_t k = 0;
    unsigned nextCount = 0;
    for (auto& file : files) {
      c.count("sound_files");
      if (file.first != nextCount++) {
        c.fail("file-count", "stream %s: sound file number %u is missing", id.getNumericName().c_str(), nextCount - 1);
        break;
      }
      Wav w = readWav(dir + "/" + file.second);
      if (!w.error.empty()) {
        c.fail("bad-wav", "%s: %s", file.second.c_str(), w.error.c_str());
        break;
      }
      while (k < sounds.size() && sounds[k].optional && (w.data.size() > 0 || !diffWav(w, sounds[k].spec).empty())) {
        k++;
      }
      if (k >= sounds.size()) {
        c.fail("extra-file", "%s: unexpected sound file of %zu bytes", file.second.c_str(), w.data.size());
        break;
      }
      const Sound& s = sounds[k];
      string d = diffWav(w, s.spec);
      if (!d.empty()) {
        c.fail("wav-format", "%s (%s): %s", file.second.c_str(), s.spec.text().c_str(), d.c_str());
        break;
      }
      Bytes data = s.data;
      for (k++; data.size() < w.data.size() && k < sounds.size() && sounds[k].mayContinue; k++) {
        data.insert(data.end(), sounds[k].data.begin(), sounds[k].data.end());
      }
      d = diffBytes(w.data, data, s.spec.tight());
      if (!d.empty()) {
        c.fail(vh::sf("samples-%s", s.spec.opus ? "opus" : kSamples[s.spec.sample].name), "%s (%s): %s", file.second.c_str(), s.spec.text().c_str(), d.c_str());
        break;
      }
      string stamp = vh::sf("-%.3f.wav", s.ts);
      c.check(s.optional || data.empty() || (file.second.size() > stamp.size() && file.second.compare(file.second.size() - stamp.size(), stamp.size(), stamp) == 0), "file-time", "%s: starts at %f", file.second.c_str(), s.ts);
      c.count("samples", static_cast<int64_t>(data.size() / s.spec.tight()));
      sig += s.spec.text() + vh::sf(" %zu;", data.size());
    }
    while (k < sounds.size() && sounds[k].optional) {
      k++;
    }
    if (c.failures == 0 && k < sounds.size()) {
      c.fail("missing-file", "stream %s: %zu sound files, nothing for %s at %f (sound %zu of %zu, %zu bytes)", id.getNumericName().c_str(), files.size(), sounds[k].spec.text().c_str(), sounds[k].ts, k, sounds.size(), sounds[k].data.size());
    }
    if (sounds.size() > 1) {
      c.count("format_changes", static_cast<int64_t>(sounds.size() - 1));
    }
  }
  for (auto& f2 : found) {
    c.check(f2.second.empty(), "extra-stream", "sound files for %s", f2.first.c_str());
  }
  c.signature(sig);
  c.sample(sig.substr(0, 200));
}

double num(const JDocument& d, const char* name, bool& has) {
  auto it = d.FindMember(name);
  has = it != d.MemberEnd() && it->value.IsNumber();
  return has ? it->value.GetDouble() : 0;
}
string str(const JDocument& d, const char* name) {
  auto it = d.FindMember(name);
  return it != d.MemberEnd() && it->value.IsString() ? it->value.GetString() : "";
}

void trackCase(Case& c) {
  Rng& r = c.rng;
  Recording rec;
  bool opus = r.chance(0.1), hostile = r.chance(0.2);
  size_t streams = r.chance(0.85) ? 1 : 2;
  string path = c.file(r.chance(0.8) ? "a.vrs" : "a \"b\"\xc3\xa9.vrs");
  bool single = r.chance(0.7);
  {
    for (size_t i = 0; i < streams; i++) {
      rec.sources.push_back(make_unique<Source>(RecordableTypeId::AudioStream, r.chance(0.3) ? "flavor/" + vg::randomText(r, 5) : "some/flavor"));
      rec.sources.back()->setup(r, false);
    }
    double ts = r.chance(0.7) ? 0 : r.pick({-1000., 1e6, 1e9});
    size_t n = r.below(12);
    for (size_t i = 0; i < n; i++) {
      auto& s = *r.pick(rec.sources);
      if (single && !s.blocks.empty()) { // go on with the same format
        ts += r.pick({0.01, 0.02, 0.5, 20., 1e5});
        Block b;
        b.ts = ts;
        b.spec = s.blocks[0].spec;
        if (b.spec.stride > 255 || (b.spec.stride && b.spec.stride > b.spec.tight() + 3 * b.spec.ch)) {
          continue;
        }
        s.fill(c, b, true, hostile);
        s.specs.put(b.spec, b.told);
        s.createRecord(ts, Record::Type::DATA, 1, DataSource(s.specs, {b.bytes.data(), b.bytes.size()}));
        s.blocks.push_back(b);
        c.count("pcm_blocks");
      } else {
        s.add(c, ts, opus, hostile, true);
      }
    }
    RecordFileWriter w;
    for (auto& s : rec.sources) {
      w.addRecordable(s.get());
      rec.ids.push_back(s->getStreamId());
    }
    if (w.writeToFile(path) != 0) {
      c.failNow("record", "can't make the recording");
    }
  }
  FilteredFileReader f(path);
  c.check(f.openFile() == 0, "open", "can't open the recording");
  string target = c.file(r.pick({"t/track", "track.wav", "t u/x.y"}));
  string wav = target + (target.size() > 4 && target.compare(target.size() - 4, 4, ".wav") == 0 ? "" : ".wav");
  string text = extractAudioTrack(f, target);
  JDocument d;
  d.Parse(text.c_str());
  if (d.HasParseError() || !d.IsObject()) {
    c.failNow("summary-malformed", "the summary isn't JSON: %s", vh::printable(text, 400).c_str());
  }
  auto saved = vh::slurp(wav + ".json");
  c.check(string(saved.begin(), saved.end()) == text, "summary-file", "the summary file isn't the summary: %zu bytes, %zu", saved.size(), text.size());
  string status = str(d, "status");
  size_t withData = 0, which = 0;
  for (size_t i = 0; i < streams; i++) {
    if (!rec.sources[i]->blocks.empty()) {
      withData++;
      which = i;
    }
  }
  bool exists = access(wav.c_str(), F_OK) == 0;
  if (withData != 1) {
    c.check(status != "success" && !exists, "track-count", "%zu tracks: %s, sound file: %d", withData, status.c_str(), exists);
    c.signature(vh::sf("tracks%zu", withData));
    c.count(withData ? "several_tracks" : "no_track");
    return;
  }
  auto& blocks = rec.sources[which]->blocks;
  Bytes expected;
  bool complete = true, any = false;
  uint64_t frames = 0;
  double first = 0, last = 0;
  for (auto& b : blocks) {
    if (!b.readable || b.spec.opus || (any && (!b.spec.sameSound(blocks[0].spec) || b.spec.frame() != blocks[0].spec.frame()))) {
      complete = false;
      break;
    }
    if (!any) {
      first = b.ts;
    }
    last = b.ts;
    any = true;
    appendSound(expected, b.spec, b.bytes.data(), b.bytes.size() / b.spec.frame());
    frames += b.bytes.size() / b.spec.frame();
  }
  c.check((status == "success") == complete, "track-status", "status \"%s\", while the track is %s", status.c_str(), complete ? "complete" : "not complete");
  c.count(complete ? "tracks_complete" : "tracks_interrupted");
  if (!any) {
    c.signature("empty");
    return;
  }
  Wav w = readWav(wav);
  if (!w.error.empty()) {
    c.failNow("track-wav", "%s", w.error.c_str());
  }
  string diff = diffWav(w, blocks[0].spec);
  c.check(diff.empty(), "track-format", "%s: %s", blocks[0].spec.text().c_str(), diff.c_str());
  if (!complete && w.data.size() > expected.size()) {
    w.data.resize(expected.size()); // what follows the interruption isn't judged
  }
  diff = diffBytes(w.data, expected, blocks[0].spec.tight());
  c.check(diff.empty(), vh::sf("track-samples-%s", kSamples[blocks[0].spec.sample].name), "%s: %s", blocks[0].spec.text().c_str(), diff.c_str());
  c.count("samples", static_cast<int64_t>(frames));
  c.check(str(d, "output") == wav, "summary-output", "output %s", str(d, "output").c_str());
  c.check(str(d, "stream_id") == rec.ids[which].getNumericName(), "summary-stream", "stream %s", str(d, "stream_id").c_str());
  bool has = false;
  if (complete) {
    double v = num(d, "first_audio_record_timestamp", has);
    c.check(has && v == first, "summary-first", "first record %d %g, expected %g", has, v, first);
    v = num(d, "last_audio_record_timestamp", has);
    c.check(has && v == last, "summary-last", "last record %d %g, expected %g", has, v, last);
    v = num(d, "total_audio_duration", has);
    double duration = static_cast<double>(frames) / blocks[0].spec.rate;
    c.check(has && fabs(v - duration) <= 1e-9 * (1 + duration), "summary-duration", "duration %d %g, expected %g", has, v, duration);
  }
  double v = num(d, "audio_channel_count", has);
  c.check(has && v == blocks[0].spec.ch, "summary-channels", "channels %d %g", has, v);
  v = num(d, "audio_sample_rate", has);
  c.check(has && v == blocks[0].spec.rate, "summary-rate", "rate %d %g", has, v);
  c.check(str(d, "audio_sample_format") == kSamples[blocks[0].spec.sample].name, "summary-format", "format %s", str(d, "audio_sample_format").c_str());
  c.signature(blocks[0].spec.text() + vh::sf(" %llu %zu", (unsigned long long)frames, blocks.size()));
}

// --- audio blocks and codecs

AudioContentBlockSpec specOf(const Spec& s, uint32_t count) {
  AudioContentBlockSpec a(s.opus ? AudioFormat::OPUS : AudioFormat::PCM, static_cast<ASF>(s.sample), static_cast<uint8_t>(s.ch), static_cast<uint16_t>(s.stride), s.rate, count, static_cast<uint8_t>(s.pairs));
  return a;
}

void codecCase(Case& c) {
  Rng& r = c.rng;
  AudioCompressionHandler enc;
  auto decoder = make_unique<AudioDecompressionHandler>();
  auto mineHolder = make_unique<Decoder>();
  string sig;
  bool unsupported = false;
  for (size_t phase = 1 + r.below(4); phase > 0; phase--) {
    if (unsupported) { // whether what is not supported resets the decoder isn't judged
      decoder = make_unique<AudioDecompressionHandler>();
      mineHolder = make_unique<Decoder>();
    }
    Decoder& mine = *mineHolder;
    AudioDecompressionHandler& dec = *decoder;
    Spec s = phase == 1 && r.chance(0.3) && mine.d ? mine.s : randomSpec(r, true, 0);
    if (mine.d && r.chance(0.3)) { // only the pairs change
      s = mine.s;
      s.pairs = static_cast<unsigned>(r.below(s.ch / 2 + 1));
    }
    s.opus = true;
    bool odd = r.chance(0.15);
    if (odd) {
      switch (r.below(4)) {
        case 0:
          s.rate = static_cast<unsigned>(r.pick({0, 1, 11025, 44100, 96000, 7999}));
          break;
        case 1:
          s.ch = 0;
          s.pairs = static_cast<unsigned>(r.below(3));
          break;
        case 2:
          s.pairs = static_cast<unsigned>(s.ch / 2 + 1 + r.below(100));
          break;
        case 3:
          s.ch = static_cast<unsigned>(200 + r.below(56));
          s.pairs = static_cast<unsigned>(r.below(s.ch / 2 + 1));
          break;
      }
    }
    sig += s.text() + ";";
    unsupported = !mine.supported(s);
    Spec plain = s;
    plain.opus = false;
    bool made = enc.create(specOf(plain, 0));
    c.check(made == mine.supported(s), "encoder-create", "%s: encoder %s", s.text().c_str(), made ? "made" : "refused");
    // a known sound: channels that are silent, others that are not
    vector<bool> loud(s.ch);
    for (unsigned i = 0; i < s.ch; i++) {
      loud[i] = i < 2 * s.pairs && i % 2 ? static_cast<bool>(loud[i - 1]) : r.chance(0.5);
    }
    bool judge = made && s.ch <= 4;
    vector<double> energy(s.ch);
    size_t measured = 0, time = 0;
    size_t packets = 1 + r.below(12);
    size_t steady = r.chance(0.5) ? randomFrames(r, s.rate) : 0;
    for (size_t p = 0; p < packets; p++) {
      size_t frames = steady ? steady : randomFrames(r, made ? s.rate : 48000);
      vector<int16_t> in(frames * s.ch);
      for (size_t i = 0; i < in.size(); i++) {
        size_t t = time + i / s.ch;
        in[i] = loud[i % s.ch] ? static_cast<int16_t>(12000 * sin(static_cast<double>(t) * 2 * M_PI * 440 / max(1u, s.rate))) : 0;
      }
      time += frames;
      size_t most = r.chance(0.9) ? 200 + 1500 * s.ch : r.below(60);
      Bytes packet(most);
      int size = enc.compress(in.data(), static_cast<uint32_t>(frames), packet.data(), packet.size());
      if (!made) {
        c.check(size <= 0, "compress-without-encoder", "%d bytes without encoder", size);
        c.count("refused_encoder");
        packet = vg::randomPayload(r, r.below(100));
        size = static_cast<int>(packet.size());
      } else if (size <= 0) {
        c.check(most < 200 + 1500 * s.ch, "compress", "%s: %zu frames can't be compressed: %d", s.text().c_str(), frames, size);
        c.count("packets_too_small");
        judge = false;
        continue;
      }
      c.check(static_cast<size_t>(size) <= most || !made, "compress-size", "%d bytes in a buffer of %zu", size, most);
      packet.resize(static_cast<size_t>(size));
      packet.shrink_to_fit();
      uint32_t told = r.chance(0.5) ? static_cast<uint32_t>(frames) : 0;
      bool spoiled = !made;
      if (r.chance(0.1)) {
        spoiled = true;
        switch (r.below(4)) {
          case 0:
            packet.resize(r.below(packet.size() + 1));
            break;
          case 1:
            for (size_t n = 1 + r.below(4); n > 0 && !packet.empty(); n--) {
              packet[r.below(packet.size())] ^= static_cast<uint8_t>(1 + r.below(255));
            }
            break;
          case 2:
            packet.clear();
            break;
          case 3:
            told = static_cast<uint32_t>(r.pick<uint64_t>({1, frames - 1, frames + 1, frames * 3, 5761, 50000000, 0xffffffff}));
            break;
        }
      }
      if (spoiled) {
        c.count("odd_packets");
        judge = false;
      }
      Bytes copy = packet, expected;
      bool ok = mine.decode(s, packet, told, expected);
      AudioBlock block(specOf(s, told), std::move(copy)), out;
      bool got;
      if (r.chance(0.5)) {
        got = block.opusDecompress(dec, out);
        c.check(block.size() == packet.size() && block.getAudioFormat() == AudioFormat::OPUS, "packet-changed", "the packet changed");
      } else {
        got = block.decompressAudio(dec);
        out.swap(block);
      }
      c.check(got == ok, ok ? "decode-refused" : "decode-accepted", "%s, packet of %zu bytes, %u samples told: %s", s.text().c_str(), packet.size(), told, got ? "decoded" : "refused");
      if (!got || !ok) {
        c.count("packets_refused");
        continue;
      }
      c.count("packets_decoded");
      size_t n = expected.size() / 2 / s.ch;
      c.check(spoiled || n == frames, "decode-count", "%s: %zu samples instead of %zu", s.text().c_str(), n, frames);
      c.check(out.getAudioFormat() == AudioFormat::PCM && out.getSampleFormat() == ASF::S16_LE && out.getChannelCount() == s.ch && out.getSampleRate() == s.rate && out.getSampleCount() == n, "decode-spec",
              "%s, %zu samples: decoded as %s", s.text().c_str(), n, out.getSpec().asString().c_str());
      string d = diffBytes(out.getBuffer(), expected, 2 * s.ch);
      c.check(d.empty(), "decode-samples", "%s: %s", s.text().c_str(), d.c_str());
      if (judge && p > 1 && d.empty()) {
        auto* v = out.data<int16_t>();
        for (size_t i = 0; i < n * s.ch; i++) {
          energy[i % s.ch] += static_cast<double>(v[i]) * v[i];
        }
        measured += n;
      }
      for (size_t k = 0; k < 3 && n > 0; k++) {
        auto i = static_cast<uint32_t>(r.below(n));
        c.check(out.getSample(i) == out.wdata() + static_cast<size_t>(i) * 2 * s.ch, "sample-address", "sample %u", i);
      }
    }
    if (judge && steady && s.rate >= 16000 && measured > s.rate / 5) {
      for (unsigned i = 0; i < s.ch; i++) {
        double rms = sqrt(energy[i] / static_cast<double>(measured));
        c.check(loud[i] ? rms > 4000 : rms < 600, "channel-energy", "%s, channel %u is %s: %g", s.text().c_str(), i, loud[i] ? "loud" : "silent", rms);
      }
      c.count("energy_judged");
    }
  }
  // audio blocks by themselves
  Spec s = randomSpec(r, false, 65535);
  uint32_t n = static_cast<uint32_t>(r.chance(0.9) ? r.below(200) : r.skewed(100000));
  if (static_cast<size_t>(n) * s.frame() > 10000000) {
    n = 3;
  }
  AudioBlock a(specOf(s, n)), b;
  size_t size = static_cast<size_t>(n) * s.frame();
  c.check(a.size() == size, "block-size", "%s, %u samples: %zu bytes", s.text().c_str(), n, a.size());
  memset(a.wdata(), 1, a.size());
  for (uint32_t i : {0u, n / 2, n - 1}) {
    if (i < n) {
      c.check(a.getSample(i) == a.wdata() + static_cast<size_t>(i) * s.frame(), "sample-address", "%s sample %u", s.text().c_str(), i);
    }
  }
  b.init(specOf(s, n), Bytes(size, 2));
  a.swap(b);
  c.check(a.size() == size && b.size() == size && (size == 0 || (a.rdata()[size - 1] == 2 && b.rdata()[0] == 1)), "block-swap", "blocks are not swapped");
  b.clearBuffer();
  c.check(all_of(b.getBuffer().begin(), b.getBuffer().end(), [](uint8_t x) { return x == 0; }) && b.size() == size, "block-clear", "block not cleared");
  c.check(a.decompressAudio(*decoder) && a.size() == size, "pcm-decompress", "PCM audio isn't left alone");
  // data that doesn't match the description must not be read outside of it
  Bytes wrong(r.below(size + 10), 3);
  size_t have = wrong.size();
  AudioBlock w(specOf(s, n), std::move(wrong));
  DiskFile file;
  string path = c.file("x.wav");
  if (AudioExtractor::createWavFile(path, w.getSpec(), file) == 0) {
    AudioExtractor::writeWavAudioData(file, w.getSpec(), w.getBuffer());
    AudioExtractor::closeWavFile(file);
    Wav wav = readWav(path);
    c.check(wav.error.empty(), "bad-wav", "%s", wav.error.c_str());
    // whole frames only; the padding of the last one may be missing
    size_t whole = min<size_t>(n, have / s.frame() + (have % s.frame() >= s.tight()));
    c.check(!wav.error.empty() || wav.data.size() == whole * s.tight(), "wrong-size", "%s: %zu bytes for %u samples: %zu bytes written", s.text().c_str(), have, n, wav.data.size());
    c.count("wrong_sizes");
  }
  c.check(rss() < 1500, "memory", "%zu MB used", rss());
  c.signature(sig);
  c.sample(sig.substr(0, 200));
}

void runCase(Case& c) {
  if (c.mode == "track") {
    trackCase(c);
  } else if (c.mode == "opus") {
    codecCase(c);
  } else {
    folderCase(c);
  }
}

} // namespace

VH_MAIN()
