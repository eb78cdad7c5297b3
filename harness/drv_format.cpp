// C12: record formats: descriptions built through the API or told by text (attributes in any order, unknown or out of
// range attributes in between) compared with an independent model of the description, its text and its sizes; texts
// of any kind written and parsed again; and the register of formats kept in stream tags.
// USES: core utils
#include "vh.h"

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/utils/AudioBlock.h>
#include <vrs/utils/PixelFrame.h>

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>

using namespace vrs;
using namespace std;
using vh::Case;
using vh::Rng;

namespace {

using Big = unsigned __int128;
constexpr size_t kUnknown = numeric_limits<size_t>::max();

const char* kTypes[] = {"custom", "empty", "data_layout", "image", "audio"};
const char* kImages[] = {"undefined", "raw", "jpg", "png", "video", "jxl", "custom_codec"};
enum Shape { kBytes, kI420, kNV, kPack10, kYuy2 };
struct Pixel {
  const char* name;
  Shape shape;
  uint32_t bytes;
};
const Pixel kPixels[] = {{"undefined", kBytes, 0}, {"grey8", kBytes, 1}, {"bgr8", kBytes, 3}, {"depth32f", kBytes, 4}, {"rgb8", kBytes, 3}, {"yuv_i420_split", kI420, 0}, {"rgba8", kBytes, 4}, {"rgb10", kBytes, 6}, {"rgb12", kBytes, 6}, {"grey10", kBytes, 2}, {"grey12", kBytes, 2}, {"grey16", kBytes, 2}, {"rgb32F", kBytes, 12}, {"scalar64F", kBytes, 8}, {"yuy2", kYuy2, 0}, {"rgb_ir_4x4", kBytes, 1}, {"rgba32F", kBytes, 16}, {"bayer8_rggb", kBytes, 1}, {"raw10", kPack10, 0}, {"raw10_bayer_rggb", kPack10, 0}, {"raw10_bayer_bggr", kPack10, 0}, {"yuv_420_nv21", kNV, 0}, {"yuv_420_nv12", kNV, 0}, {"grey10packed", kPack10, 0}, {"bayer8_bggr", kBytes, 1}, {"bayer10_gbrg", kBytes, 2}, {"bayer8_gbrg", kBytes, 1}};
const char* kAudios[] = {"undefined", "pcm", "opus"};
const char* kSamples[] = {"undefined", "int8", "uint8", "uint8alaw", "uint8mulaw", "int16le", "uint16le", "int16be", "uint16be", "int24le", "uint24le", "int24be", "uint24be", "int32le", "uint32le", "int32be", "uint32be", "float32le", "float32be", "float64le", "float64be"};
uint32_t sampleBytes(int s) {
  string n = kSamples[s];
  return s == 0 ? 0 : n.find("64") != string::npos ? 8 : n.find("32") != string::npos ? 4 : n.find("24") != string::npos ? 3 : n.find("16") != string::npos ? 2 : 1;
}

struct Block {
  int type = 1;
  size_t size = kUnknown;
  // image
  int image = 0, pixel = 0;
  uint32_t w = 0, h = 0, stride = 0, stride2 = 0;
  string codec;
  int quality = 255;
  bool key = false;
  double keyTime = 0;
  uint32_t keyIndex = 0;
  // audio
  int audio = 0, sample = 0;
  uint32_t channels = 0, frame = 0, rate = 0, count = 0, pairs = 0;
  // custom
  string format;
};

string sanitized(const string& s) {
  string o;
  for (char c : s) {
    o += isalnum(static_cast<unsigned char>(c)) || string("_-*.,;:!@~#&|[]{}'").find(c) != string::npos ? c : '_';
  }
  return o;
}

uint64_t number(Rng& r, uint64_t max) {
  uint64_t n = r.chance(0.6) ? 1 + r.below(4000) : r.chance(0.5) ? (1ull << r.below(33)) + r.below(3) - 1 : r.chance(0.5) ? max - r.below(4) : r.next() >> r.below(60);
  return std::max<uint64_t>(1, min(n, max));
}

string randomName(Rng& r) {
  static const vector<string> bits{"H.264", "H.265", "VP9", "av1", " ", "%", "%41", "+", "/", "\\", "\"", "'", "é", "日本", "\xff", "\x01", "\n", "\t", "=", "x", "codec=", "size=5", "stride=3", "1x2", "{}", "%zz", "Z", "_", "-", "0"};
  string s;
  size_t n = r.chance(0.9) ? 1 + r.below(6) : 1 + r.below(r.chance(0.5) ? 60 : 1200);
  for (size_t k = 0; k < n; ++k) {
    s += r.pick(bits);
    if (r.chance(0.03)) {
      s += '\0';
    }
  }
  return s;
}

Big defaultStride(const Block& b, int plane) {
  const Pixel& p = kPixels[b.pixel];
  Big w = b.w;
  switch (p.shape) {
    case kBytes:
      return w * p.bytes;
    case kI420:
      return plane == 0 ? w : (w + 1) / 2;
    case kNV:
      return plane == 0 ? w : (w + 1) / 2 * 2;
    case kPack10:
      return (w + 3) / 4 * 5;
    case kYuy2:
      return (w + 1) / 2 * 4;
  }
  return 0;
}

int planes(const Block& b) {
  Shape s = kPixels[b.pixel].shape;
  return s == kI420 ? 3 : s == kNV ? 2 : 1;
}

// the size of the data made to this description, and whether it has to be known
struct Size {
  bool defined = false;
  Big bytes = 0;
  bool reasonable = true;
};

Size rawSize(const Block& b) {
  Size s;
  s.defined = b.pixel != 0 && b.w > 0 && b.h > 0;
  for (int p = 0; p < planes(b) && s.defined; ++p) {
    uint32_t given = p == 0 ? b.stride : b.stride2;
    Big stride = given ? given : defaultStride(b, p);
    s.reasonable &= stride < 0xffffffffu;
    s.bytes += stride * (p == 0 ? Big(b.h) : (Big(b.h) + 1) / 2);
  }
  s.reasonable &= s.bytes < (Big(1) << 62);
  return s;
}

Size pcmSize(const Block& b) {
  Size s;
  Big stride = b.frame ? b.frame : sampleBytes(b.sample) * b.channels;
  s.bytes = stride * b.count;
  s.defined = s.bytes > 0;
  return s;
}

Size blockSize(const Block& b) {
  Size s;
  if (b.type == 1) {
    s.defined = true;
  } else if (b.size != kUnknown) {
    s.defined = true;
    s.bytes = b.size;
  } else if (b.type == 3 && b.image == 1) {
    s = rawSize(b);
  } else if (b.type == 4 && b.audio == 1) {
    s = pcmSize(b);
  }
  return s;
}

string sizeText(const Size& s) {
  return !s.defined ? "unknown" : vh::sf("%s%llu", s.bytes >> 64 ? "2^64 * n + " : "", static_cast<unsigned long long>(s.bytes));
}

bool sizeOk(size_t got, const Size& s) {
  return got == kUnknown ? !s.defined || !s.reasonable || s.bytes >= kUnknown : s.defined && s.bytes == got;
}

Block randomBlock(Rng& r) {
  Block b;
  b.type = static_cast<int>(r.chance(0.45) ? 3 : r.chance(0.5) ? 4 : r.below(5));
  if (r.chance(0.25)) {
    b.size = r.chance(0.6) ? r.below(100000) : r.chance(0.5) ? number(r, kUnknown - 1) : (size_t(1) << r.below(64)) - r.below(2);
  }
  if (b.type == 0 && r.chance(0.7)) {
    b.format = sanitized(r.chance(0.5) ? r.pick({"mesh", "my_format-1.0", "a:b", "[x]{y}"}) : randomName(r));
    b.format.erase(remove(b.format.begin(), b.format.end(), '\0'), b.format.end());
  } else if (b.type == 3 && r.chance(0.97)) {
    b.image = r.chance(0.5) ? 1 : 1 + static_cast<int>(r.below(6));
    b.pixel = r.chance(0.9) ? static_cast<int>(r.below(27)) : 0;
    if (r.chance(0.85)) {
      b.w = static_cast<uint32_t>(number(r, 0xffffffffu));
      b.h = static_cast<uint32_t>(number(r, 0xffffffffu));
    }
    bool video = b.image == 4 || b.image == 6;
    if (b.image == 1 || video) {
      auto stride = [&](int p) {
        uint64_t d = static_cast<uint64_t>(min<Big>(defaultStride(b, p), 0xffffffffu));
        return static_cast<uint32_t>(r.chance(0.85) ? min<uint64_t>(0xffffffffu, d + r.below(70)) : number(r, 0xffffffffu));
      };
      b.stride = r.chance(0.3) ? stride(0) : 0;
      b.stride2 = r.chance(0.3) ? stride(1) : 0;
    }
    if (video) {
      b.codec = r.chance(0.8) ? randomName(r) : "";
      b.quality = r.chance(0.5) ? static_cast<int>(r.below(101)) : 255;
      if (b.image == 4 && r.chance(0.3)) {
        b.key = true;
        b.keyTime = r.chance(0.5) ? static_cast<double>(r.below(1ull << 40)) / 1024 : (r.chance(0.5) ? -1.0 : 1.0) * static_cast<double>(r.below(1000000)) * 0.5;
        b.keyIndex = static_cast<uint32_t>(r.chance(0.8) ? r.below(1000) : r.next());
      }
    }
  } else if (b.type == 4 && r.chance(0.97)) {
    b.audio = r.chance(0.7) ? 1 : 2;
    b.sample = r.chance(0.9) ? static_cast<int>(r.below(21)) : 0;
    b.channels = static_cast<uint32_t>(r.chance(0.7) ? r.below(9) : r.below(256));
    b.rate = r.chance(0.8) ? static_cast<uint32_t>(number(r, 0xffffffffu)) : 0;
    b.count = r.chance(0.7) ? static_cast<uint32_t>(number(r, 0xffffffffu)) : 0;
    b.frame = r.chance(0.3) ? min<uint32_t>(255, sampleBytes(b.sample) * b.channels + static_cast<uint32_t>(r.below(20))) : 0;
    b.pairs = r.chance(0.3) ? static_cast<uint32_t>(r.below(b.channels / 2 + 1)) : 0;
  }
  return b;
}

string escaped(const string& s, Rng* r = nullptr) {
  string o;
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    bool must = c < 32 || c >= 127 || string("+/\\% \"'").find(ch) != string::npos;
    o += must || (r && r->chance(0.05)) ? vh::sf(r && r->chance(0.3) ? "%%%02x" : "%%%02X", c) : string(1, ch);
  }
  return o;
}

// the text of a description: canonical, or with the attributes in any order and foreign ones in between
string write(const Block& b, Rng* r = nullptr) {
  string s = kTypes[b.type];
  if (b.size != kUnknown) {
    s += vh::sf("/size=%zu", b.size);
  }
  vector<string> a;
  if (b.type == 0 && !b.format.empty()) {
    s += "/format=" + b.format;
  } else if (b.type == 3 && b.image) {
    s += string("/") + kImages[b.image];
    if (b.w) {
      a.push_back(vh::sf("%ux%u", b.w, b.h));
    }
    if (b.pixel) {
      a.push_back(string("pixel=") + kPixels[b.pixel].name);
    }
    if (b.stride) {
      a.push_back(vh::sf("stride=%u", b.stride));
    }
    if (b.stride2) {
      a.push_back(vh::sf("stride_2=%u", b.stride2));
    }
    if (!b.codec.empty()) {
      a.push_back("codec=" + escaped(b.codec, r));
    }
    if (b.quality <= 100) {
      a.push_back(vh::sf("codec_quality=%d", b.quality));
    }
    if (b.key) {
      a.push_back(vh::sf("keyframe_timestamp=%.9f", b.keyTime));
      a.push_back(vh::sf("keyframe_index=%u", b.keyIndex));
    }
    if (r && r->chance(0.2)) {
      uint64_t big = 0x100000000ull + (r->chance(0.5) ? r->below(1000) : r->next() >> 1);
      if (!b.w && r->chance(0.5)) {
        a.push_back(r->chance(0.5) ? vh::sf("%llux%u", (unsigned long long)big, 5u) : vh::sf("%ux%llu", 640u, (unsigned long long)big));
      }
      if (!b.stride && r->chance(0.5)) {
        a.push_back(vh::sf("stride=%llu", (unsigned long long)big));
      }
      if (b.quality == 255 && r->chance(0.5)) {
        a.push_back(vh::sf("codec_quality=%llu", (unsigned long long)(r->chance(0.5) ? 101 + r->below(400) : big)));
      }
      a.push_back(r->pick({"future=5", "0", "pixels", "z", "strides=3", "codec_=1", "q=stride=4"}));
    }
  } else if (b.type == 4 && b.audio) {
    s += string("/") + kAudios[b.audio];
    if (b.sample) {
      a.push_back(kSamples[b.sample]);
    }
    if (b.channels) {
      a.push_back(vh::sf("channels=%u", b.channels));
    }
    if (b.rate) {
      a.push_back(vh::sf("rate=%u", b.rate));
    }
    if (b.count) {
      a.push_back(vh::sf("samples=%u", b.count));
    }
    if (b.frame && (r || b.frame != sampleBytes(b.sample) * b.channels)) {
      a.push_back(vh::sf("stride=%u", b.frame));
    }
    if (b.pairs) {
      a.push_back(vh::sf("stereo_pairs=%u", b.pairs));
    }
    if (r && r->chance(0.2)) {
      uint64_t big = 0x100000000ull + (r->chance(0.5) ? r->below(1000) : r->next() >> 1);
      if (!b.channels && r->chance(0.5)) {
        a.push_back(vh::sf("channels=%llu", (unsigned long long)(r->chance(0.7) ? 256 + r->below(500) : big)));
      }
      if (!b.rate && r->chance(0.5)) {
        a.push_back(vh::sf("rate=%llu", (unsigned long long)big));
      }
      if (!b.count && r->chance(0.5)) {
        a.push_back(vh::sf("samples=%llu", (unsigned long long)big));
      }
      a.push_back(r->pick({"future=5", "0", "int", "z", "rates=3", "float16le", "channel"}));
    }
  }
  if (r && r->chance(0.7)) {
    r->shuffle(a);
  }
  for (auto& t : a) {
    s += "/" + t;
  }
  return s;
}

// what a description says, as far as its text can tell
string describe(const ContentBlock& c) {
  string s = vh::sf("type %d size %zu", static_cast<int>(c.getContentType()), c.getBlockSize());
  if (c.getContentType() == ContentType::CUSTOM) {
    s += " format '" + vh::printable(c.getCustomContentBlockFormat()) + "'";
  } else if (c.getContentType() == ContentType::IMAGE) {
    const auto& i = c.image();
    auto f = i.getImageFormat();
    bool video = f == ImageFormat::VIDEO || f == ImageFormat::CUSTOM_CODEC;
    s += vh::sf(" image %d", static_cast<int>(f));
    if (f != ImageFormat::UNDEFINED) {
      s += vh::sf(" pixel %d", static_cast<int>(i.getPixelFormat()));
      if (i.getWidth() && i.getHeight()) {
        s += vh::sf(" %ux%u", i.getWidth(), i.getHeight());
      }
      if (f == ImageFormat::RAW || video) {
        s += vh::sf(" strides %u %u", i.getRawStride(), i.getRawStride2());
      }
      if (video) {
        s += " codec '" + vh::printable(i.getCodecName()) + vh::sf("' %u", i.getCodecQuality());
      }
      if (f == ImageFormat::VIDEO && i.getKeyFrameTimestamp() != ImageContentBlockSpec::kInvalidTimestamp) {
        s += vh::sf(" key %.9f %u", i.getKeyFrameTimestamp(), i.getKeyFrameIndex());
      }
    }
  } else if (c.getContentType() == ContentType::AUDIO) {
    const auto& a = c.audio();
    s += vh::sf(" audio %d", static_cast<int>(a.getAudioFormat()));
    if (a.getAudioFormat() != AudioFormat::UNDEFINED) {
      s += vh::sf(" sample %d channels %u stride %u rate %u count %u pairs %u", static_cast<int>(a.getSampleFormat()), a.getChannelCount(), static_cast<uint32_t>(a.getSampleFrameStride()), a.getSampleRate(), a.getSampleCount(), a.getStereoPairCount());
    }
  }
  return s;
}

// the same, from the model, with the size told by the library, which is judged apart
string describe(const Block& b, size_t size) {
  string s = vh::sf("type %d size %zu", b.type, size);
  if (b.type == 0) {
    s += " format '" + vh::printable(b.format) + "'";
  } else if (b.type == 3) {
    bool video = b.image == 4 || b.image == 6;
    s += vh::sf(" image %d", b.image);
    if (b.image) {
      s += vh::sf(" pixel %d", b.pixel);
      if (b.w) {
        s += vh::sf(" %ux%u", b.w, b.h);
      }
      if (b.image == 1 || video) {
        s += vh::sf(" strides %u %u", b.stride, b.stride2);
      }
      if (video) {
        s += " codec '" + vh::printable(b.codec) + vh::sf("' %d", b.quality);
      }
      if (b.key) {
        s += vh::sf(" key %.9f %u", b.keyTime, b.keyIndex);
      }
    }
  } else if (b.type == 4) {
    s += vh::sf(" audio %d", b.audio);
    if (b.audio) {
      s += vh::sf(" sample %d channels %u stride %u rate %u count %u pairs %u", b.sample, b.channels, b.frame ? b.frame : sampleBytes(b.sample) * b.channels, b.rate, b.count, b.pairs);
    }
  }
  return s;
}

ContentBlock build(const Block& b, Rng& r) {
  auto type = static_cast<ContentType>(b.type);
  if (b.type == 0 && (!b.format.empty() || r.chance(0.5))) {
    return b.format.empty() ? CustomContentBlock(b.size) : CustomContentBlock(b.format, b.size);
  }
  if (b.type == 3 && b.image) {
    auto image = static_cast<ImageFormat>(b.image);
    auto pixel = static_cast<PixelFormat>(b.pixel);
    auto quality = static_cast<uint8_t>(b.quality);
    bool sized = b.size != kUnknown;
    if (b.key) {
      ImageContentBlockSpec s(image, b.codec, quality, pixel, b.w, b.h, b.stride, b.stride2);
      if (r.chance(0.5)) {
        return ContentBlock(ContentBlock(s, b.size), b.keyTime, b.keyIndex);
      }
      return ContentBlock(ImageContentBlockSpec(s, b.keyTime, b.keyIndex), b.size);
    }
    if (!sized && !b.pixel && !b.stride && !b.stride2 && b.codec.empty() && b.quality == 255 && r.chance(0.5)) {
      return ContentBlock(image, b.w, b.h);
    }
    if (!sized && b.image == 1 && r.chance(0.4)) {
      return ContentBlock(pixel, b.w, b.h, b.stride, b.stride2);
    }
    if (!sized && b.image == 4 && r.chance(0.4)) {
      return ContentBlock(b.codec, quality, pixel, b.w, b.h, b.stride, b.stride2);
    }
    if (r.chance(0.3)) {
      ContentBlock c(ImageContentBlockSpec(image, b.codec, quality, pixel, b.w, b.h, b.stride, b.stride2));
      return ContentBlock(c, b.size);
    }
    return ContentBlock(ImageContentBlockSpec(image, pixel, b.w, b.h, b.stride, b.stride2, b.codec, quality), b.size);
  }
  if (b.type == 4 && b.audio) {
    auto audio = static_cast<AudioFormat>(b.audio);
    auto sample = static_cast<AudioSampleFormat>(b.sample);
    auto channels = static_cast<uint8_t>(b.channels);
    auto pairs = static_cast<uint8_t>(b.pairs);
    auto frame = static_cast<uint8_t>(b.frame);
    if (b.size == kUnknown && r.chance(0.5)) {
      return ContentBlock(audio, sample, channels, frame, b.rate, b.count, pairs);
    }
    AudioContentBlockSpec s(audio, sample, channels, frame, b.rate, 0, pairs);
    s.setSampleCount(b.count);
    return r.chance(0.5) ? ContentBlock(s, b.size) : ContentBlock(ContentBlock(s, kUnknown), b.size);
  }
  return ContentBlock(type, b.size);
}

void checkSpecs(Case& c, const Block& b, const ContentBlock& cb, const string& what) {
  if (b.type == 3 && b.image) {
    const auto& i = cb.image();
    Size raw = rawSize(b);
    c.check(sizeOk(i.getRawImageSize(), raw), "raw-size", "%s: raw image size %zu, expected %s", what.c_str(), i.getRawImageSize(), sizeText(raw).c_str());
    c.check(i.getPlaneCount() == static_cast<uint32_t>(planes(b)), "plane-count", "%s: %u", what.c_str(), i.getPlaneCount());
    ImageContentBlockSpec core = i.core();
    c.check(core.getImageFormat() == i.getImageFormat() && core.getPixelFormat() == i.getPixelFormat() && core.getWidth() == b.w && core.getHeight() == b.h && core.getStride() == i.getStride() && core.getPlaneStride(1) == i.getPlaneStride(1) && (core.getRawImageSize() == i.getRawImageSize() || !raw.reasonable) && core.getCodecName() == b.codec && core.core() == core, "core", "%s: core %s", what.c_str(), core.asString().c_str());
    ImageContentBlockSpec i2(i.asString());
    c.check(i2 == i || (b.image != 1 && b.image != 4 && b.image != 6) || b.key, "image-text", "%s: %s -> %s", what.c_str(), i.asString().c_str(), i2.asString().c_str());
    ImageContentBlockSpec cleared(i);
    cleared.clear();
    c.check(cleared == ImageContentBlockSpec() && cleared.asString().empty(), "clear", "%s: not blank once cleared", what.c_str());
    if (raw.defined && raw.bytes < 300000 && b.pixel) {
      utils::PixelFrame f(i);
      c.check(f.size() == static_cast<size_t>(raw.bytes), "frame-size", "%s: image buffer of %zu bytes, expected %s", what.c_str(), f.size(), sizeText(raw).c_str());
      c.count("images_built");
    }
  } else if (b.type == 4 && b.audio) {
    const auto& a = cb.audio();
    Size pcm = pcmSize(b);
    c.check(sizeOk(a.getPcmBlockSize(), pcm), "pcm-size", "%s: PCM size %zu, expected %s", what.c_str(), a.getPcmBlockSize(), sizeText(pcm).c_str());
    AudioContentBlockSpec a2(a.asString());
    c.check(a2 == a && a2.isCompatibleWith(a), "audio-text", "%s: %s -> %s", what.c_str(), a.asString().c_str(), a2.asString().c_str());
    AudioContentBlockSpec cleared(a);
    cleared.clear();
    c.check(cleared == AudioContentBlockSpec() && cleared.getStereoPairCount() == 0 && cleared.asString().empty(), "clear", "%s: not blank once cleared", what.c_str());
    if (b.audio == 1 && pcm.defined && pcm.bytes < 300000) {
      utils::AudioBlock block(a);
      c.check(block.size() == static_cast<size_t>(pcm.bytes), "audio-block-size", "%s: audio buffer of %zu bytes, expected %s", what.c_str(), block.size(), sizeText(pcm).c_str());
      c.count("audio_built");
    }
  }
}

Size total(const vector<Block>& blocks, size_t from) {
  Size t;
  t.defined = true;
  for (size_t k = from; k < blocks.size(); ++k) {
    Size s = blockSize(blocks[k]);
    t.defined &= s.defined;
    t.reasonable &= s.reasonable;
    t.bytes += s.bytes;
  }
  return t;
}

void checkSizes(Case& c, const vector<Block>& blocks, const RecordFormat& f, const string& what) {
  Rng& r = c.rng;
  for (size_t k = 0; k <= blocks.size(); ++k) {
    Size t = total(blocks, k);
    size_t got = k == 0 && r.chance(0.5) ? f.getRecordSize() : f.getRemainingBlocksSize(k);
    c.check(sizeOk(got, t), "record-size", "%s: size from block %zu: %zu, expected %s", what.c_str(), k, got, sizeText(t).c_str());
    c.count(!t.defined ? "sizes_unknown" : t.bytes < kUnknown ? "sizes_known" : "sizes_huge");
    if (k == blocks.size()) {
      break;
    }
    Size s = blockSize(blocks[k]);
    size_t b = f.getContentBlock(k).getBlockSize();
    c.check(sizeOk(b, s), "block-size", "%s: size of block %zu: %zu, expected %s", what.c_str(), k, b, sizeText(s).c_str());
    // a record of some size: what this block would use of it
    Size rest = total(blocks, k + 1);
    size_t left = r.chance(0.3) ? r.below(5000) : r.chance(0.5) ? static_cast<size_t>(s.bytes) + static_cast<size_t>(rest.bytes) + r.below(3) - 1 : static_cast<size_t>(number(r, kUnknown - 1));
    if (left == kUnknown) {
      continue;
    }
    size_t use = f.getBlockSize(k, left);
    Size want;
    if (b != kUnknown) {
      want = s;
      want.defined = s.bytes <= left;
    } else {
      want = rest;
      want.defined = rest.defined && rest.bytes <= left;
      want.bytes = left - rest.bytes;
    }
    c.check(use == kUnknown ? !want.defined || !want.reasonable : want.defined && want.bytes == use, "block-size-in-record", "%s: block %zu of a record with %zu bytes left: %zu, expected %s", what.c_str(), k, left, use, sizeText(want).c_str());
  }
}

void descriptions(Case& c) {
  Rng& r = c.rng;
  vector<Block> blocks(r.chance(0.02) ? 0 : 1 + r.below(r.chance(0.95) ? 5 : 60));
  string canonical, loose;
  RecordFormat built;
  for (auto& b : blocks) {
    b = randomBlock(r);
    ContentBlock cb = build(b, r);
    if (b.key && b.size == kUnknown) {
      b.size = cb.getBlockSize(); // may be turned explicit
    }
    string text = write(b), other = write(b, &r);
    string what = vh::printable(text.substr(0, 400));
    Size s = blockSize(b);
    size_t size = cb.getBlockSize();
    c.check(sizeOk(size, s), "size", "%s: size %zu, expected %s", what.c_str(), size, sizeText(s).c_str());
    c.check(describe(cb) == describe(b, size), "built", "%s: built as %s", what.c_str(), describe(cb).c_str());
    c.check(cb.asString() == text, "text", "%s: written as %s", what.c_str(), vh::printable(cb.asString()).c_str());
    for (auto& t : {text, other}) {
      ContentBlock p(t);
      c.check(describe(p) == describe(b, size), "parsed", "%s: parsed as %s", vh::printable(t).c_str(), describe(p).c_str());
      c.check(p.asString() == text, "rewritten", "%s: rewritten as %s", vh::printable(t).c_str(), vh::printable(p.asString()).c_str());
      bool lossless = b.type != 3 || b.image == 1 || b.image == 6 || (b.image == 4 && !b.key);
      c.check((p == cb && cb == p && !(p != cb)) || !lossless, "not-equal", "%s: parsed %s isn't equal", vh::printable(t).c_str(), describe(p).c_str());
    }
    checkSpecs(c, b, cb, what);
    canonical += (canonical.empty() ? "" : "+") + text;
    loose += (loose.empty() ? "" : "+") + other;
    if (r.chance(0.5) || &b == &blocks[0]) {
      built = &b == &blocks[0] ? RecordFormat(cb) : built + cb;
    } else {
      built + std::move(cb);
    }
    c.count("blocks");
    c.count(vh::sf("blocks_%s", kTypes[b.type]));
  }
  string want = blocks.empty() ? "empty" : canonical;
  c.signature(want);
  string what = vh::printable(want.substr(0, 600));
  c.check(built.asString() == want, "format-text", "%s: written as %s", what.c_str(), vh::printable(built.asString()).c_str());
  if (!blocks.empty()) {
    RecordFormat reused(r.chance(0.5) ? "image/raw+custom" : "");
    reused.set(loose);
    for (const RecordFormat* f : {&built, &reused}) {
      checkSizes(c, blocks, *f, what);
      size_t used = blocks.size();
      while (used > 0 && blocks[used - 1].type == 1) {
        --used;
      }
      c.check(f->getUsedBlocksCount() == used, "used-blocks", "%s: %zu used blocks", what.c_str(), f->getUsedBlocksCount());
      for (int t = 0; t < 5; ++t) {
        size_t n = count_if(blocks.begin(), blocks.end(), [&](const Block& b) { return b.type == t; });
        c.check(f->getBlocksOfTypeCount(static_cast<ContentType>(t)) == n, "type-count", "%s: %zu %s blocks", what.c_str(), f->getBlocksOfTypeCount(static_cast<ContentType>(t)), kTypes[t]);
      }
      c.check(f->getContentBlock(blocks.size()).getContentType() == ContentType::EMPTY, "past-end", "%s: a block past the end", what.c_str());
    }
    c.check(reused.asString() == want, "format-rewritten", "%s: rewritten as %s", vh::printable(loose).c_str(), vh::printable(reused.asString()).c_str());
    // a change of any attribute makes another format
    Block o = randomBlock(r);
    size_t at = r.below(blocks.size());
    auto changed = blocks;
    changed[at] = o;
    string t;
    for (auto& b : changed) {
      t += (t.empty() ? "" : "+") + write(b);
    }
    RecordFormat other(t);
    if (other.getContentBlock(at).getContentType() != built.getContentBlock(at).getContentType() && at < min(other.getUsedBlocksCount(), built.getUsedBlocksCount())) {
      c.check(other != built, "equal", "%s == %s", what.c_str(), vh::printable(t).c_str());
    }
  }
  c.count("formats");
}

string junk(Rng& r) {
  static const vector<string> bits{"custom", "empty", "data_layout", "image", "audio", "raw", "png", "jpg", "video", "custom_codec", "pcm", "opus", "/", "/", "/", "+", "size=", "pixel=", "stride=", "stride_2=", "codec=", "codec_quality=", "keyframe_timestamp=", "keyframe_index=", "channels=", "rate=", "samples=", "stereo_pairs=", "format=", "int16le", "float64be", "grey8", "yuv_420_nv12", "yuv_i420_split", "640x480", "1x", "x1", "0x0", "0x10", "4294967295x4294967295", "-1x-1", "99999999999999999999", "18446744073709551615", "4294967296", "255", "256", "-1", "-5", "+7", " 12", "0", "1e400", "nan", "inf", "-inf", "1e-320", "-1E-308", "0.1", "123456789.123456789", "%", "%4", "%41", "%00", " ", "\t", "\n", "é", "\xff", "\x01", "a", "Z", "_", "="};
  string s;
  size_t n = 1 + r.below(r.chance(0.95) ? 14 : 400);
  for (size_t k = 0; k < n; ++k) {
    if (r.chance(0.02)) {
      s += '\0';
    } else if (r.chance(0.05)) {
      s += static_cast<char>(r.below(256));
    } else {
      s += r.pick(bits);
    }
  }
  return s;
}

string mutated(Rng& r, string s) {
  for (size_t k = r.below(4) + 1; k > 0 && !s.empty(); --k) {
    size_t at = r.below(s.size());
    switch (r.below(5)) {
      case 0:
        s.erase(at, 1 + r.below(5));
        break;
      case 1:
        s.insert(at, junk(r).substr(0, 12));
        break;
      case 2:
        s[at] = static_cast<char>(r.below(256));
        break;
      case 3:
        s.insert(at, s.substr(r.below(s.size()), r.below(20)));
        break;
      default:
        s.resize(at);
    }
  }
  return s;
}

void texts(Case& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 12; ++k) {
    string t;
    if (r.chance(0.4)) {
      t = junk(r);
    } else {
      size_t n = 1 + r.below(3);
      for (size_t b = 0; b < n; ++b) {
        t += (b ? "+" : "") + write(randomBlock(r), &r);
      }
      t = mutated(r, t);
    }
    c.signature(t);
    string what = "'" + vh::printable(t.substr(0, 500)) + "'";
    RecordFormat a(t), again("audio");
    again.set(t);
    string s1 = a.asString();
    c.check(again.asString() == s1, "unsteady", "%s: %s, then %s", what.c_str(), vh::printable(s1).c_str(), vh::printable(again.asString()).c_str());
    RecordFormat b(s1);
    string s2 = b.asString();
    c.check(s1 == s2, "unstable-text", "%s: written %s, then %s", what.c_str(), vh::printable(s1).c_str(), vh::printable(s2).c_str());
    size_t count = 1 + static_cast<size_t>(std::count(s1.begin(), s1.end(), '+'));
    for (size_t i = 0; i < count; ++i) {
      string d1 = describe(a.getContentBlock(i)), d2 = describe(b.getContentBlock(i));
      c.check(d1 == d2, "unstable", "%s: block %zu is %s, once written and parsed %s", what.c_str(), i, d1.c_str(), d2.c_str());
      c.count("text_blocks");
    }
    c.check(a.getUsedBlocksCount() == b.getUsedBlocksCount() && a.getRecordSize() == b.getRecordSize(), "unstable-size", "%s: %zu blocks %zu bytes, once written and parsed %zu blocks %zu bytes", what.c_str(), a.getUsedBlocksCount(), a.getRecordSize(), b.getUsedBlocksCount(), b.getRecordSize());
    // the parts on their own
    ContentBlock one(t);
    c.check(describe(ContentBlock(one.asString())) == describe(one) || one.asString().find('+') != string::npos, "unstable-block", "%s: %s, once written and parsed %s", what.c_str(), describe(one).c_str(), describe(ContentBlock(one.asString())).c_str());
    ImageContentBlockSpec image(t);
    c.check(ImageContentBlockSpec(image.asString()).asString() == image.asString(), "unstable-image", "%s: %s", what.c_str(), vh::printable(image.asString()).c_str());
    AudioContentBlockSpec audio(t);
    c.check(AudioContentBlockSpec(audio.asString()) == audio, "unstable-audio", "%s: %s", what.c_str(), vh::printable(audio.asString()).c_str());
    c.count("texts");
  }
}

class Layout : public AutoDataLayout {
 public:
  DataPieceValue<double> time{"time"};
  DataPieceString name{"name"};
  AutoDataLayoutEnd end;
};

struct TagModel {
  bool valid = false;
  Record::Type type{};
  uint32_t version = 0;
};

TagModel parseTag(const string& t) {
  TagModel m;
  size_t at = 3;
  if (t.compare(0, 3, "RF:") != 0) {
    return m;
  }
  for (auto& [name, type] : map<string, Record::Type>{{"Data:", Record::Type::DATA}, {"Configuration:", Record::Type::CONFIGURATION}, {"State:", Record::Type::STATE}}) {
    if (t.compare(at, name.size(), name) == 0) {
      string n = t.substr(at + name.size());
      bool digits = !n.empty() && n.size() < 4000 && all_of(n.begin(), n.end(), [](char ch) { return ch >= '0' && ch <= '9'; });
      Big v = 0;
      for (char ch : n) {
        v = digits && v < (Big(1) << 64) ? v * 10 + static_cast<unsigned>(ch - '0') : v;
      }
      m.valid = digits && v <= 0xffffffffu;
      m.type = type;
      m.version = static_cast<uint32_t>(v);
    }
  }
  return m;
}

void registers(Case& c) {
  Rng& r = c.rng;
  map<string, string> tags;
  map<pair<Record::Type, uint32_t>, string> formats;
  map<tuple<Record::Type, uint32_t, size_t>, string> layouts;
  size_t n = 1 + r.below(6);
  for (size_t k = 0; k < n; ++k) {
    auto type = r.pick({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE});
    uint32_t version = static_cast<uint32_t>(r.chance(0.6) ? r.below(4) : r.next());
    vector<Block> blocks(1 + r.below(4));
    RecordFormat f;
    string text;
    for (auto& b : blocks) {
      b = randomBlock(r);
      b.key = false;
      if (r.chance(0.4)) {
        b = Block();
        b.type = 2;
      }
      f + build(b, r);
      text += (text.empty() ? "" : "+") + write(b);
    }
    Layout layout;
    vector<const DataLayout*> given;
    size_t used = f.getUsedBlocksCount();
    bool good = true;
    bool correct = r.chance(0.6);
    size_t count = correct ? blocks.size() : r.below(6);
    for (size_t i = 0; i < count; ++i) {
      given.push_back((correct ? blocks[i].type == 2 : r.chance(0.5)) ? &layout : nullptr);
    }
    for (size_t i = 0; i < max(used, given.size()); ++i) {
      bool wants = i < used && blocks[i].type == 2;
      good &= wants == (i < given.size() && given[i]);
      if (i < given.size() && given[i]) {
        layouts[{type, version, i}] = layout.asJson();
      }
    }
    bool ok = RecordFormat::addRecordFormat(tags, type, version, f, given);
    c.check(ok == good, "register-verdict", "%s with %zu layouts -> %d", vh::printable(text).c_str(), given.size(), ok);
    formats[{type, version}] = text;
    string name = RecordFormat::getRecordFormatTagName(type, version);
    c.check(tags.count(name) == 1 && tags[name] == text, "register-text", "%s registered as %s", vh::printable(text).c_str(), vh::printable(tags[name]).c_str());
  }
  for (int k = 0; k < 8; ++k) {
    string name = r.chance(0.6) ? RecordFormat::getRecordFormatTagName(r.pick({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE}), static_cast<uint32_t>(r.chance(0.5) ? r.below(20) : r.next())) : r.pick({"RF:", "RF:Data", "DL:Data:1:0", "RF:State:-1", "RF:State:4294967296", "RF:Data:+1", "RF:Data: 1", "RF:Data:1 ", "RF:Configuration:", "RF:data:1", "RF:Data:0x1", "RF:Undefined:1", "RF:Data:99999999999999999999999", "RF::1", "rf:Data:1", "RF:Data:00000000000000000007", "RF:StateData:1"});
    if (r.chance(0.3)) {
      name.insert(r.below(name.size() + 1), 1, static_cast<char>(1 + r.below(255)));
    }
    TagModel m = parseTag(name);
    Record::Type type{};
    uint32_t version = 0;
    bool got = RecordFormat::parseRecordFormatTagName(name, type, version);
    c.check(got == m.valid && (!got || (type == m.type && version == m.version)), "tag-name", "'%s' -> %d %d %u", vh::printable(name).c_str(), got, static_cast<int>(type), version);
    if (!m.valid && name.compare(0, 3, "DL:") != 0) {
      tags[name] = "image/raw/640x480/pixel=grey8";
    }
    c.count("tag_names");
  }
  RecordFormatMap found;
  RecordFormat::getRecordFormats(tags, found);
  c.check(found.size() == formats.size(), "register-count", "%zu formats found, %zu registered", found.size(), formats.size());
  for (auto& [key, text] : formats) {
    auto it = found.find(key);
    c.check(it != found.end() && it->second.asString() == text, "register-read", "%s %u: %s read as %s", toString(key.first).c_str(), key.second, vh::printable(text).c_str(), it == found.end() ? "nothing" : vh::printable(it->second.asString()).c_str());
    for (size_t i = 0; i < 6; ++i) {
      auto l = RecordFormat::getDataLayout(tags, {RecordableTypeId::UnitTest1, key.first, key.second, i});
      auto want = layouts.find({key.first, key.second, i});
      c.check(want == layouts.end() ? l == nullptr : l != nullptr && l->asJson() == want->second, "register-layout", "%s %u block %zu: %s", toString(key.first).c_str(), key.second, i, l ? l->asJson().c_str() : "no layout");
      c.count("layout_lookups");
    }
  }
  c.signature(vh::sf("%zu", tags.size()) + (formats.empty() ? "" : formats.begin()->second));
  c.count("registers");
}

void runCase(Case& c) {
  if (c.mode == "text") {
    texts(c);
  } else if (c.mode == "register") {
    registers(c);
  } else {
    descriptions(c);
  }
}

} // namespace

VH_MAIN()
