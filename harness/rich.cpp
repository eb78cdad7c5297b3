#include "rich.h"

#include <cmath>

using namespace vrs;
using namespace std;

namespace vg {
namespace {
using vh::Rng;

Field fieldDef(Field::Kind k, const string& label, size_t count = 0) {
  Field f;
  f.kind = k;
  f.label = label;
  f.count = count;
  f.set = false;
  return f;
}

Field randomField(Rng& r, const string& label) {
  return fieldDef(static_cast<Field::Kind>(r.below(Field::KINDS)), label, 1 + r.below(5));
}

double randomNum(Rng& r, Field::Kind k) {
  switch (k) {
    case Field::U8:
      return static_cast<double>(r.below(256));
    case Field::U32:
      return static_cast<double>(r.next() & 0xffffffff);
    case Field::I64:
      return static_cast<double>(r.range(-1000000000000, 1000000000000));
    case Field::F64:
      return r.pick({0.0, -1.5, 1e300, 3.25e-7, static_cast<double>(r.range(-1000, 1000))});
    case Field::ARR16:
      return static_cast<double>(r.below(65536));
    default:
      return static_cast<double>(r.range(-1000, 1000)) / 4;
  }
}

void randomValue(Rng& r, Field& f, bool hostile) {
  f.set = r.chance(0.85);
  f.nums.clear();
  f.map.clear();
  f.text.clear();
  f.num = 0;
  if (!f.set) {
    return;
  }
  switch (f.kind) {
    case Field::STR:
      f.text = hostile && r.chance(0.5) ? hostileText(r, 30) : randomText(r, 30);
      break;
    case Field::VECF:
      f.nums.resize(r.below(6));
      for (auto& n : f.nums) {
        n = randomNum(r, f.kind);
      }
      break;
    case Field::ARR16:
      f.nums.resize(f.count);
      for (auto& n : f.nums) {
        n = randomNum(r, f.kind);
      }
      break;
    case Field::MAPI:
      for (size_t n = r.below(4); n > 0; n--) {
        f.map[hostile && r.chance(0.5) ? hostileText(r, 12) : randomText(r, 12)] = static_cast<int32_t>(r.next());
      }
      break;
    default:
      f.num = randomNum(r, f.kind);
  }
}

void setField(vector<Field>& v, const string& label, double num) {
  for (auto& f : v) {
    if (f.label == label) {
      f.set = true;
      f.num = num;
    }
  }
}
void setText(vector<Field>& v, const string& label, const string& t) {
  for (auto& f : v) {
    if (f.label == label) {
      f.set = true;
      f.text = t;
    }
  }
}

bool isConvention(const string& label) {
  return label.compare(0, 6, "image_") == 0 || label.compare(0, 6, "audio_") == 0 || label.compare(0, 5, "next_") == 0;
}

const PixelFormat kPixels[] = {PixelFormat::GREY8,       PixelFormat::BGR8,      PixelFormat::DEPTH32F,       PixelFormat::RGB8,        PixelFormat::YUV_I420_SPLIT, PixelFormat::RGBA8,
                               PixelFormat::RGB10,       PixelFormat::RGB12,     PixelFormat::GREY10,         PixelFormat::GREY12,      PixelFormat::GREY16,         PixelFormat::RGB32F,
                               PixelFormat::SCALAR64F,   PixelFormat::YUY2,      PixelFormat::RGB_IR_RAW_4X4, PixelFormat::RGBA32F,     PixelFormat::BAYER8_RGGB,    PixelFormat::RAW10,
                               PixelFormat::RAW10_BAYER_RGGB, PixelFormat::RAW10_BAYER_BGGR, PixelFormat::YUV_420_NV21, PixelFormat::YUV_420_NV12, PixelFormat::GREY10PACKED, PixelFormat::BAYER8_BGGR,
                               PixelFormat::BAYER10_GBRG, PixelFormat::BAYER8_GBRG};

uint32_t planes(PixelFormat p) {
  return p == PixelFormat::YUV_I420_SPLIT ? 3 : p == PixelFormat::YUV_420_NV21 || p == PixelFormat::YUV_420_NV12 ? 2 : 1;
}
uint64_t line(PixelFormat p, uint64_t w) {
  switch (p) {
    case PixelFormat::GREY8:
    case PixelFormat::RGB_IR_RAW_4X4:
    case PixelFormat::BAYER8_RGGB:
    case PixelFormat::BAYER8_BGGR:
    case PixelFormat::BAYER8_GBRG:
    case PixelFormat::YUV_I420_SPLIT:
    case PixelFormat::YUV_420_NV21:
    case PixelFormat::YUV_420_NV12:
      return w;
    case PixelFormat::GREY10:
    case PixelFormat::GREY12:
    case PixelFormat::GREY16:
    case PixelFormat::BAYER10_GBRG:
      return 2 * w;
    case PixelFormat::RGB8:
    case PixelFormat::BGR8:
      return 3 * w;
    case PixelFormat::DEPTH32F:
    case PixelFormat::RGBA8:
      return 4 * w;
    case PixelFormat::RGB10:
    case PixelFormat::RGB12:
      return 6 * w;
    case PixelFormat::SCALAR64F:
      return 8 * w;
    case PixelFormat::RGB32F:
      return 12 * w;
    case PixelFormat::RGBA32F:
      return 16 * w;
    case PixelFormat::YUY2:
      return (w + 1) / 2 * 4;
    default: // RAW10 & co: 4 pixels in 5 bytes
      return (w + 3) / 4 * 5;
  }
}
uint64_t line2(PixelFormat p, uint64_t w) {
  return p == PixelFormat::YUV_I420_SPLIT ? (w + 1) / 2 : (w + 1) / 2 * 2;
}

MediaSpec randomRaw(Rng& r, uint32_t maxDim) {
  MediaSpec m;
  m.imf = ImageFormat::RAW;
  m.pix = kPixels[r.below(sizeof(kPixels) / sizeof(kPixels[0]))];
  m.w = 1 + static_cast<uint32_t>(r.below(maxDim));
  m.h = 1 + static_cast<uint32_t>(r.below(maxDim));
  if (r.chance(0.4)) {
    m.stride = static_cast<uint32_t>(line(m.pix, m.w)) + static_cast<uint32_t>(r.below(20));
  }
  if (planes(m.pix) > 1 && r.chance(0.4)) {
    m.stride2 = static_cast<uint32_t>(line2(m.pix, m.w)) + static_cast<uint32_t>(r.below(20));
  }
  return m;
}

MediaSpec randomPcm(Rng& r) {
  MediaSpec m;
  m.auf = AudioFormat::PCM;
  m.sample = static_cast<AudioSampleFormat>(1 + r.below(static_cast<uint64_t>(AudioSampleFormat::COUNT) - 1));
  m.channels = 1 + static_cast<uint32_t>(r.below(6));
  m.rate = r.pick<uint32_t>({8000, 44100, 48000, 192000});
  m.samples = 1 + static_cast<uint32_t>(r.below(60));
  if (r.chance(0.3)) {
    m.frameStride = static_cast<uint32_t>(sampleSize(m.sample)) * m.channels + static_cast<uint32_t>(r.below(m.channels));
  }
  if (r.chance(0.2)) {
    m.pairs = static_cast<uint32_t>(r.below(m.channels / 2 + 1));
  }
  return m;
}

void addImageSpec(Rng& r, vector<Field>& f) {
  f.push_back(fieldDef(Field::U32, "image_width"));
  f.push_back(fieldDef(Field::U32, "image_height"));
  f.push_back(fieldDef(Field::U32, "image_pixel_format"));
  f.push_back(fieldDef(Field::U32, "image_stride"));
  f.push_back(fieldDef(Field::U32, "image_stride_2"));
  if (r.chance(0.7)) {
    f.push_back(fieldDef(Field::STR, "image_codec_name"));
    f.push_back(fieldDef(Field::U32, "image_codec_quality"));
  }
}
void addAudioSpec(Rng& r, vector<Field>& f) {
  f.push_back(fieldDef(Field::U8, "audio_format"));
  f.push_back(fieldDef(Field::U8, "audio_sample_format"));
  f.push_back(fieldDef(Field::U8, "audio_sample_stride"));
  f.push_back(fieldDef(Field::U8, "audio_channel_count"));
  f.push_back(fieldDef(Field::U32, "audio_sample_rate"));
  f.push_back(fieldDef(Field::U8, "audio_stereo_pair_count"));
}
bool has(const vector<Field>& v, const string& label) {
  for (auto& f : v) {
    if (f.label == label) {
      return true;
    }
  }
  return false;
}

void setImage(vector<Field>& v, const MediaSpec& m) {
  setField(v, "image_width", m.w);
  setField(v, "image_height", m.h);
  setField(v, "image_pixel_format", static_cast<double>(m.pix));
  setField(v, "image_stride", m.stride);
  setField(v, "image_stride_2", m.stride2);
  setText(v, "image_codec_name", m.codec);
  setField(v, "image_codec_quality", m.quality);
}
void setAudio(vector<Field>& v, const MediaSpec& m) {
  setField(v, "audio_format", static_cast<double>(m.auf));
  setField(v, "audio_sample_format", static_cast<double>(m.sample));
  setField(v, "audio_sample_stride", m.frameStride);
  setField(v, "audio_channel_count", m.channels);
  setField(v, "audio_sample_rate", m.rate);
  setField(v, "audio_stereo_pair_count", m.pairs);
}

unique_ptr<LayoutDef> randomLayout(Rng& r, bool fixedOnly) {
  auto l = make_unique<LayoutDef>();
  size_t n = r.below(5);
  for (size_t i = 0; i < n; i++) {
    Field f = randomField(r, vh::sf("field_%zu", i));
    if (fixedOnly && (f.kind == Field::STR || f.kind == Field::VECF || f.kind == Field::MAPI)) {
      f.kind = Field::F64;
    }
    l->fields.push_back(f);
  }
  return l;
}
} // namespace

size_t sampleSize(AudioSampleFormat f) {
  int v = static_cast<int>(f);
  if (v <= static_cast<int>(AudioSampleFormat::MU_LAW)) {
    return 1;
  }
  if (v <= static_cast<int>(AudioSampleFormat::U16_BE)) {
    return 2;
  }
  if (v <= static_cast<int>(AudioSampleFormat::U24_BE)) {
    return 3;
  }
  return f == AudioSampleFormat::F64_LE || f == AudioSampleFormat::F64_BE ? 8 : 4;
}

size_t rawImageSize(const MediaSpec& m) {
  size_t size = (m.stride ? m.stride : line(m.pix, m.w)) * m.h;
  if (planes(m.pix) > 1) {
    size += (planes(m.pix) - 1) * (m.stride2 ? m.stride2 : line2(m.pix, m.w)) * ((m.h + 1) / 2);
  }
  return size;
}

void LayoutDef::build() {
  layout = make_unique<ManualDataLayout>();
  for (auto& f : fields) {
    switch (f.kind) {
      case Field::U8:
        layout->add(make_unique<DataPieceValue<uint8_t>>(f.label));
        break;
      case Field::U32:
        layout->add(make_unique<DataPieceValue<uint32_t>>(f.label));
        break;
      case Field::I64:
        layout->add(make_unique<DataPieceValue<int64_t>>(f.label));
        break;
      case Field::F64:
        layout->add(make_unique<DataPieceValue<double>>(f.label));
        break;
      case Field::STR:
        layout->add(make_unique<DataPieceString>(f.label));
        break;
      case Field::VECF:
        layout->add(make_unique<DataPieceVector<float>>(f.label));
        break;
      case Field::ARR16:
        layout->add(make_unique<DataPieceArray<uint16_t>>(f.label, f.count));
        break;
      default:
        layout->add(make_unique<DataPieceStringMap<int32_t>>(f.label));
    }
  }
  layout->endLayout();
}

bool LayoutDef::fixedSize() const {
  for (auto& f : fields) {
    if (f.kind == Field::STR || f.kind == Field::VECF || f.kind == Field::MAPI) {
      return false;
    }
  }
  return true;
}

Bytes layoutBytes(LayoutDef& def, const vector<Field>& values) {
  ManualDataLayout& l = *def.layout;
  l.initDataPiecesToDefaultValue();
  for (auto& f : values) {
    if (f.kind == Field::STR) {
      l.findDataPieceString(f.label)->stage(f.set ? f.text : "");
    } else if (f.kind == Field::VECF) {
      vector<float> v;
      for (double d : f.nums) {
        v.push_back(static_cast<float>(d));
      }
      l.findDataPieceVector<float>(f.label)->stage(f.set ? v : vector<float>());
    } else if (f.kind == Field::MAPI) {
      l.findDataPieceStringMap<int32_t>(f.label)->stage(f.set ? f.map : map<string, int32_t>());
    } else if (f.set) {
      switch (f.kind) {
        case Field::U8:
          l.findDataPieceValue<uint8_t>(f.label)->set(static_cast<uint8_t>(f.num));
          break;
        case Field::U32:
          l.findDataPieceValue<uint32_t>(f.label)->set(static_cast<uint32_t>(f.num));
          break;
        case Field::I64:
          l.findDataPieceValue<int64_t>(f.label)->set(static_cast<int64_t>(f.num));
          break;
        case Field::F64:
          l.findDataPieceValue<double>(f.label)->set(f.num);
          break;
        default: {
          vector<uint16_t> v;
          for (double d : f.nums) {
            v.push_back(static_cast<uint16_t>(d));
          }
          l.findDataPieceArray<uint16_t>(f.label, f.count)->set(v);
        }
      }
    }
  }
  DataSource ds(l);
  Bytes b(ds.getDataSize());
  if (!b.empty()) {
    ds.copyTo(b.data());
  }
  return b;
}

string diffLayout(DataLayout& l, const vector<Field>& values) {
  for (auto& f : values) {
    string what;
    switch (f.kind) {
      case Field::U8: {
        auto* p = l.findDataPieceValue<uint8_t>(f.label);
        what = !p || !p->isAvailable() ? "missing" : p->get() != static_cast<uint8_t>(f.num) ? vh::sf("%u, expected %g", p->get(), f.num) : "";
        break;
      }
      case Field::U32: {
        auto* p = l.findDataPieceValue<uint32_t>(f.label);
        what = !p || !p->isAvailable() ? "missing" : p->get() != static_cast<uint32_t>(f.num) ? vh::sf("%u, expected %g", p->get(), f.num) : "";
        break;
      }
      case Field::I64: {
        auto* p = l.findDataPieceValue<int64_t>(f.label);
        what = !p || !p->isAvailable() ? "missing" : p->get() != static_cast<int64_t>(f.num) ? vh::sf("%lld, expected %g", (long long)p->get(), f.num) : "";
        break;
      }
      case Field::F64: {
        auto* p = l.findDataPieceValue<double>(f.label);
        what = !p || !p->isAvailable() ? "missing" : p->get() != f.num ? vh::sf("%g, expected %g", p->get(), f.num) : "";
        break;
      }
      case Field::STR: {
        auto* p = l.findDataPieceString(f.label);
        what = !p || (!p->isAvailable() && !f.text.empty()) ? "missing" : p->get() != f.text ? "other text" : "";
        break;
      }
      case Field::VECF: {
        auto* p = l.findDataPieceVector<float>(f.label);
        vector<float> got, exp;
        for (double d : f.nums) {
          exp.push_back(static_cast<float>(d));
        }
        bool ok = p && (exp.empty() || p->isAvailable()) && (p->get(got) || exp.empty()); // no difference between empty and missing
        what = !ok ? "missing" : got != exp ? "other values" : "";
        break;
      }
      case Field::ARR16: {
        auto* p = l.findDataPieceArray<uint16_t>(f.label, f.count);
        vector<uint16_t> got, exp(f.count);
        for (size_t i = 0; i < f.nums.size(); i++) {
          exp[i] = static_cast<uint16_t>(f.nums[i]);
        }
        what = !p || !p->isAvailable() || !p->get(got) ? "missing" : got != exp ? "other values" : "";
        break;
      }
      default: {
        auto* p = l.findDataPieceStringMap<int32_t>(f.label);
        map<string, int32_t> got;
        bool ok = p && (f.map.empty() || p->isAvailable()) && (p->get(got) || f.map.empty());
        what = !ok ? "missing" : got != f.map ? "other values" : "";
      }
    }
    if (!what.empty()) {
      return f.label + ": " + what;
    }
  }
  return {};
}

void RichStream::addFormats(Rng& r, const RichOptions& o) {
  auto finish = [&](unique_ptr<FormatDef> f) {
    RecordFormat rf;
    vector<const DataLayout*> layouts;
    bool first = true;
    for (auto& b : f->blocks) {
      ContentBlock cb;
      switch (b.type) {
        case ContentType::DATA_LAYOUT:
          b.layout->build();
          cb = r.chance(0.5) ? b.layout->layout->getContentBlock() : ContentBlock(ContentType::DATA_LAYOUT);
          break;
        case ContentType::IMAGE: {
          auto& m = b.media;
          if (m.imf == ImageFormat::RAW) {
            cb = b.source == Source::FORMAT ? ContentBlock(m.pix, m.w, m.h, m.stride, m.stride2) : ContentBlock(ImageFormat::RAW);
          } else {
            ImageContentBlockSpec s(m.imf, m.codec, static_cast<uint8_t>(m.quality), m.pix, m.w, m.h, m.stride, m.stride2);
            cb = b.sized ? ContentBlock(s, b.size) : ContentBlock(s);
          }
          break;
        }
        case ContentType::AUDIO: {
          auto& m = b.media;
          if (b.source == Source::FORMAT && m.auf == AudioFormat::PCM) {
            cb = ContentBlock(AudioFormat::PCM, m.sample, static_cast<uint8_t>(m.channels), static_cast<uint8_t>(m.frameStride), m.rate, m.samples);
          } else {
            cb = ContentBlock(m.auf);
          }
          break;
        }
        case ContentType::CUSTOM:
          cb = b.custom.empty() ? (b.sized ? CustomContentBlock(b.size) : CustomContentBlock()) : (b.sized ? CustomContentBlock(b.custom, b.size) : CustomContentBlock(b.custom));
          break;
        default:
          cb = ContentBlock(ContentType::EMPTY);
      }
      layouts.push_back(b.layout ? b.layout->layout.get() : nullptr);
      if (first) {
        rf = RecordFormat(cb);
        first = false;
      } else {
        rf = rf + cb;
      }
    }
    addRecordFormat(f->type, f->ver, rf, layouts);
    formats.push_back(std::move(f));
  };

  // configuration records: one or two versions, both telling about images and audio
  size_t versions = o.twoConfigVersions && r.chance(0.4) ? 2 : 1;
  bool image = r.chance(0.8), audio = r.chance(0.8);
  for (uint32_t v = 1; v <= versions; v++) {
    auto f = make_unique<FormatDef>();
    f->type = Record::Type::CONFIGURATION;
    f->ver = v;
    f->hasImageSpec = image;
    f->hasAudioSpec = audio;
    bool together = r.chance(0.5), audioFirst = r.chance(0.4);
    BlockDef b;
    b.type = ContentType::DATA_LAYOUT;
    b.layout = randomLayout(r, false);
    for (bool isAudio : {audioFirst, !audioFirst}) {
      if (!(isAudio ? audio : image)) {
        continue;
      }
      if (isAudio) {
        addAudioSpec(r, b.layout->fields);
        if (r.chance(0.4)) {
          b.layout->fields.push_back(fieldDef(Field::U32, "audio_sample_count"));
        }
      } else {
        addImageSpec(r, b.layout->fields);
      }
      if (!together) {
        f->blocks.push_back(std::move(b));
        b = BlockDef{};
        b.type = ContentType::DATA_LAYOUT;
        b.layout = randomLayout(r, false);
      }
    }
    f->blocks.push_back(std::move(b));
    finish(std::move(f));
  }
  // state records
  if (r.chance(0.7)) {
    auto f = make_unique<FormatDef>();
    f->type = Record::Type::STATE;
    f->ver = 1;
    BlockDef b;
    b.type = ContentType::DATA_LAYOUT;
    b.layout = randomLayout(r, false);
    f->blocks.push_back(std::move(b));
    finish(std::move(f));
  }
  // data records
  size_t dataFormats = 1 + r.below(3);
  for (uint32_t v = 1; v <= dataFormats; v++) {
    auto f = make_unique<FormatDef>();
    f->type = Record::Type::DATA;
    f->ver = v;
    size_t n = 1 + r.below(4);
    bool openUsed = false; // a block that takes what remains has been placed (blocks are generated backwards)
    vector<BlockDef> rev;
    for (size_t i = 0; i < n; i++) {
      BlockDef b;
      int pick = static_cast<int>(r.below(10));
      bool mayOpen = !openUsed; // every block after this one has a size given by the format
      unique_ptr<LayoutDef> before; // a layout to be placed just before
      if (pick < 2) { // metadata
        b.type = ContentType::DATA_LAYOUT;
        b.layout = randomLayout(r, false);
      } else if (pick < 6) { // image
        b.type = ContentType::IMAGE;
        int kind = static_cast<int>(r.below(5));
        if (kind < 2) {
          b.media = randomRaw(r, o.maxDim);
          b.source = r.chance(0.4) ? Source::FORMAT : r.chance(0.5) || !image ? Source::RECORD : Source::CONFIG;
          if (b.source == Source::RECORD) {
            before = randomLayout(r, false);
            addImageSpec(r, before->fields);
          }
        } else if (kind == 2) {
          b.media.imf = r.chance(0.5) ? ImageFormat::JPG : ImageFormat::PNG;
        } else if (kind == 3) {
          b.media.imf = ImageFormat::VIDEO;
          b.media.codec = r.pick({"H.264", "vp9", "a b/c+d%"});
          if (o.hostileText && r.chance(0.5)) {
            b.media.codec = "x" + hostileText(r, 12);
          }
          b.source = image ? (r.chance(0.5) ? Source::CONFIG : Source::RECORD) : Source::RECORD;
          before = randomLayout(r, false);
          if (b.source == Source::RECORD) {
            addImageSpec(r, before->fields);
          }
          if (r.chance(0.7)) {
            before->fields.push_back(fieldDef(Field::F64, "image_key_frame_timestamp"));
            before->fields.push_back(fieldDef(Field::U32, "image_key_frame_index"));
          }
        } else {
          b.media.imf = ImageFormat::CUSTOM_CODEC;
          b.media.codec = r.pick({"mine", "other codec"});
          if (o.hostileText && r.chance(0.5)) {
            b.media.codec = "x" + hostileText(r, 12);
          }
          b.source = image ? (r.chance(0.5) ? Source::CONFIG : Source::RECORD) : Source::RECORD;
          before = randomLayout(r, false);
          if (b.source == Source::RECORD) {
            addImageSpec(r, before->fields);
          }
        }
        if (b.media.imf != ImageFormat::RAW) {
          int how = static_cast<int>(r.below(3));
          if (how == 0 && mayOpen) {
            // takes what remains
          } else if (how == 1 || b.media.imf != ImageFormat::JPG) {
            b.sizeFromLayout = true;
            if (!before) {
              before = randomLayout(r, false);
            }
          } else {
            b.sized = true;
            b.size = 1 + r.below(300);
          }
        }
      } else if (pick < 8) { // audio
        b.type = ContentType::AUDIO;
        b.media = randomPcm(r);
        b.source = r.chance(0.4) ? Source::FORMAT : r.chance(0.5) || !audio ? Source::RECORD : Source::CONFIG;
        int how = static_cast<int>(r.below(3));
        bool counted = how == 0 && b.source == Source::FORMAT;
        if (b.source == Source::FORMAT) {
          b.media.pairs = 0; // not part of a format's text
        }
        if (b.source == Source::RECORD) {
          before = randomLayout(r, false);
          addAudioSpec(r, before->fields);
        }
        if (!counted) {
          b.media.samples = 0;
          if (mayOpen && how == 1) {
            // takes what remains
          } else {
            if (!before) {
              before = randomLayout(r, false);
            }
            if (r.chance(0.5) && b.source != Source::FORMAT) {
              b.countFromLayout = true;
            } else {
              b.sizeFromLayout = true;
            }
          }
        }
      } else { // custom
        b.type = ContentType::CUSTOM;
        b.custom = r.chance(0.5) ? r.pick({"my_format", "other-one", "v1.2"}) : "";
        if (o.hostileText && r.chance(0.5)) {
          b.custom = hostileText(r, 12);
        }
        if (r.chance(0.4)) {
          b.sized = true;
          b.size = r.below(300);
        } else if (!mayOpen || r.chance(0.5)) {
          b.sizeFromLayout = true;
          before = randomLayout(r, false);
        }
      }
      bool closed = b.sized || (b.type == ContentType::IMAGE && b.media.imf == ImageFormat::RAW && b.source == Source::FORMAT) ||
          (b.type == ContentType::AUDIO && b.source == Source::FORMAT && b.media.samples > 0);
      openUsed = openUsed || !closed || before;
      if (before) {
        if (b.sizeFromLayout) {
          before->fields.push_back(fieldDef(Field::U32, "next_content_block_size"));
        }
        if (b.countFromLayout) {
          before->fields.push_back(fieldDef(Field::U32, "audio_sample_count"));
        }
      }
      rev.push_back(std::move(b));
      if (before) {
        BlockDef l;
        l.type = ContentType::DATA_LAYOUT;
        l.layout = std::move(before);
        rev.push_back(std::move(l));
      }
      if (r.chance(0.05)) {
        rev.emplace_back(); // empty block
      }
    }
    f->blocks.assign(make_move_iterator(rev.rbegin()), make_move_iterator(rev.rend()));
    finish(std::move(f));
  }
}

void RichStream::addRecord(Rng& r, const RichOptions& o, Record::Type type, double ts) {
  vector<FormatDef*> choice;
  for (auto& f : formats) {
    if (f->type == type) {
      choice.push_back(f.get());
    }
  }
  if (choice.empty()) {
    return;
  }
  FormatDef& f = *choice[r.below(choice.size())];
  RichRec rr;
  rr.config = lastConfig_;
  // first decide what the blocks are, then fill the metadata that describe them
  vector<vector<Field>> values(f.blocks.size());
  vector<Bytes> bytes(f.blocks.size());
  vector<MediaSpec> media(f.blocks.size()), told(f.blocks.size());
  vector<bool> unsupported(f.blocks.size());
  for (size_t i = 0; i < f.blocks.size(); i++) {
    auto& b = f.blocks[i];
    if (b.layout) {
      values[i] = b.layout->fields;
      for (auto& v : values[i]) {
        if (!isConvention(v.label)) {
          randomValue(r, v, o.hostileText);
        }
      }
    }
  }
  if (type == Record::Type::CONFIGURATION) {
    MediaSpec im = randomRaw(r, o.maxDim), au = randomPcm(r);
    im.codec = r.chance(0.5) ? r.pick({"H.264", "H.265", "mine"}) : "";
    im.quality = r.chance(0.5) ? static_cast<uint32_t>(r.below(101)) : 255;
    for (size_t i = 0; i < f.blocks.size(); i++) {
      if (f.hasImageSpec && has(values[i], "image_width")) {
        setImage(values[i], im);
        if (!has(values[i], "image_codec_name")) {
          im.codec.clear();
          im.quality = 255;
        }
        configImage_ = im;
        haveImage_ = true;
      }
      if (f.hasAudioSpec && has(values[i], "audio_channel_count")) {
        setAudio(values[i], au);
        if (!has(values[i], "audio_sample_count")) {
          au.samples = 0;
        } else {
          if (r.chance(0.6)) {
            au.samples = 0; // not the same in every block
          }
          setField(values[i], "audio_sample_count", au.samples);
        }
        configAudio_ = au;
        haveAudio_ = true;
      }
    }
  }
  for (size_t i = 0; i < f.blocks.size(); i++) {
    auto& b = f.blocks[i];
    if (b.type == ContentType::IMAGE) {
      MediaSpec m = b.media;
      if (b.source == Source::RECORD) {
        MediaSpec raw = randomRaw(r, o.maxDim);
        raw.imf = m.imf;
        raw.codec = r.chance(0.5) && m.imf != ImageFormat::RAW ? r.pick({"av1", "zz"}) : "";
        raw.quality = r.chance(0.5) ? static_cast<uint32_t>(r.below(101)) : 255;
        setImage(values[i - 1], raw);
        if (!has(values[i - 1], "image_codec_name")) {
          raw.codec.clear();
          raw.quality = 255;
        }
        told[i - 1] = raw;
        if (raw.codec.empty()) {
          raw.codec = m.codec;
        }
        m = raw;
      } else if (b.source == Source::CONFIG) {
        // the closest metadata of the record, before that of the configuration record
        const MediaSpec* near = nullptr;
        for (size_t k = i; k-- > 0 && near == nullptr;) {
          if (has(values[k], "image_width")) {
            near = &told[k];
          }
        }
        if (near == nullptr && !haveImage_) {
          return; // can't be described
        }
        ImageFormat imf = m.imf;
        string codec = m.codec;
        m = near != nullptr ? *near : configImage_;
        m.imf = imf;
        if (m.codec.empty()) {
          m.codec = codec;
        }
      }
      if (m.imf == ImageFormat::RAW) {
        m.codec.clear();
        m.quality = 255;
        bytes[i] = randomPayload(r, rawImageSize(m));
      } else {
        bytes[i] = randomPayload(r, b.sized ? b.size : 1 + r.below(400));
      }
      if (m.imf == ImageFormat::VIDEO && i > 0 && has(values[i - 1], "image_key_frame_timestamp")) {
        m.hasKey = true;
        m.keyTs = static_cast<double>(r.below(1000)) / 8;
        m.keyIndex = static_cast<uint32_t>(r.below(1000));
        setField(values[i - 1], "image_key_frame_timestamp", m.keyTs);
        setField(values[i - 1], "image_key_frame_index", m.keyIndex);
      }
      media[i] = m;
    } else if (b.type == ContentType::AUDIO) {
      MediaSpec m = b.media;
      if (b.source == Source::RECORD) {
        m = randomPcm(r);
        setAudio(values[i - 1], m);
      } else if (b.source == Source::CONFIG) {
        if (!haveAudio_) {
          return;
        }
        m = configAudio_;
      }
      if (b.source == Source::CONFIG && m.samples > 0) {
        // told by the configuration
      } else if (b.media.samples == 0) {
        m.samples = 1 + static_cast<uint32_t>(r.below(60));
      } else {
        m.samples = b.media.samples;
      }
      size_t stride = m.frameStride ? m.frameStride : sampleSize(m.sample) * m.channels;
      bytes[i] = randomPayload(r, stride * m.samples);
      media[i] = m;
      if (b.countFromLayout) {
        setField(values[i - 1], "audio_sample_count", m.samples);
      }
    } else if (b.type == ContentType::CUSTOM) {
      bytes[i] = randomPayload(r, b.sized ? b.size : r.below(400));
    }
    if (b.sizeFromLayout) {
      setField(values[i - 1], "next_content_block_size", static_cast<double>(bytes[i].size()));
    }
  }
  for (size_t i = 0; i < f.blocks.size(); i++) {
    auto& b = f.blocks[i];
    if (b.layout) {
      bytes[i] = layoutBytes(*b.layout, values[i]);
    }
    if (b.type != ContentType::EMPTY) {
      Delivered d;
      d.index = i;
      d.type = b.type;
      d.media = media[i];
      d.custom = b.custom;
      d.origin = b.source == Source::FORMAT ? "format" : b.source == Source::RECORD ? "record" : "configuration";
      d.origin += b.sized ? ", sized" : b.sizeFromLayout ? ", size told" : b.countFromLayout ? ", count told" : "";
      d.bytes = bytes[i];
      d.values = values[i];
      rr.blocks.push_back(std::move(d));
    }
    rr.rec.data.insert(rr.rec.data.end(), bytes[i].begin(), bytes[i].end());
  }
  add(ts, type, f.ver, rr.rec.data);
  rr.rec = log.back();
  rich.push_back(std::move(rr));
  if (type == Record::Type::CONFIGURATION) {
    lastConfig_ = rich.size() - 1;
  }
}

string hostileText(Rng& r, size_t maxLen) {
  static const char* samples[] = {"\"", "\\", "\\\"", "\n", "\r\n", "\x01", "\x1b[31m", "\x7f", "\xff", "\xc3", "\xc3\xa9", "\xe6\x97\xa5", "\xe6\x97", "\xf0\x9f\x98\x80", "\xf0\x9f", "\x80", "\xc0\xaf", "\xed\xa0\x80",
                                  "\xf4\x90\x80\x80", "\",\"a\":\"b", "}", "]", "{", "/", "\\u12", "\\x41", "%00", "{}", "'", "<&>", "\xe2\x80\xa8"};
  string s;
  for (size_t n = r.skewed(8); n > 0; n--) {
    string t = r.chance(0.5) ? randomText(r, 6, true) : samples[r.below(sizeof(samples) / sizeof(samples[0]))];
    if (s.size() + t.size() <= maxLen) {
      s += t;
    }
  }
  return s;
}

RichPlan makeRich(Rng& r, const RichOptions& o) {
  RichPlan p;
  p.tags = randomTags(r, 4);
  for (size_t k = o.hostileText ? r.below(3) : 0; k > 0; k--) {
    string name = hostileText(r, 10);
    p.tags[name] = hostileText(r, 40);
  }
  size_t n = 1 + r.below(o.maxStreams);
  for (size_t i = 0; i < n; i++) {
    RecordableTypeId type = randomType(r);
    p.streams.push_back(make_unique<RichStream>(type, isARecordableClass(type) ? "rich/class" : r.chance(0.3) ? (o.hostileText ? hostileText(r, 12) : randomText(r, 12)) : ""));
    auto& s = *p.streams.back();
    for (auto& t : randomTags(r, 3)) {
      s.setTag(t.first, t.second);
    }
    for (size_t k = o.hostileText ? r.below(3) : 0; k > 0; k--) {
      s.setTag(hostileText(r, 10), hostileText(r, 40));
    }
    s.setCompression(randomPreset(r, false));
    s.chunks = 1 + static_cast<uint32_t>(r.below(3));
    s.autoConfig = s.autoState = false;
    s.addFormats(r, o);
  }
  double ts = static_cast<double>(r.range(-2, 2));
  for (auto& s : p.streams) {
    if (r.chance(0.9)) {
      s->addRecord(r, o, Record::Type::CONFIGURATION, ts);
    }
  }
  size_t count = r.skewed(o.maxRecords);
  for (size_t i = 0; i < count; i++) {
    ts += o.increasing ? 0.001 + r.unit() : static_cast<double>(r.below(3)) * 0.25;
    auto& s = *p.streams[r.below(n)];
    s.addRecord(r, o, r.chance(0.12) ? Record::Type::CONFIGURATION : r.chance(0.1) ? Record::Type::STATE : Record::Type::DATA, ts);
  }
  return p;
}

int writeRich(RichPlan& p, const string& path, size_t threads) {
  RecordFileWriter writer;
  for (auto& s : p.streams) {
    writer.addRecordable(s.get());
  }
  writer.addTags(p.tags);
  writer.setCompressionThreadPoolSize(threads);
  return writer.writeToFile(path);
}

string diffBlock(const Delivered& e, const Delivered& g) {
  if (e.index != g.index || e.type != g.type) {
    return vh::sf("block %zu (%s) instead of block %zu (%s)", g.index, toString(g.type).c_str(), e.index, toString(e.type).c_str());
  }
  if (g.unsupported) {
    return vh::sf("block %zu (%s) was not recognized", e.index, toString(e.type).c_str());
  }
  if (e.type == ContentType::IMAGE) {
    auto &a = e.media, &b = g.media;
    if (a.imf != b.imf) {
      return "image format";
    }
    if (a.imf != ImageFormat::JPG && a.imf != ImageFormat::PNG) {
      if (a.pix != b.pix || a.w != b.w || a.h != b.h || a.stride != b.stride || a.stride2 != b.stride2) {
        return vh::sf("image %ux%u pixel %d stride %u/%u, expected %ux%u pixel %d stride %u/%u", b.w, b.h, (int)b.pix, b.stride, b.stride2, a.w, a.h, (int)a.pix, a.stride, a.stride2);
      }
      if (a.imf != ImageFormat::RAW && (a.codec != b.codec || a.quality != b.quality)) {
        return vh::sf("codec %s/%u, expected %s/%u", b.codec.c_str(), b.quality, a.codec.c_str(), a.quality);
      }
      if (a.hasKey && (a.keyTs != b.keyTs || a.keyIndex != b.keyIndex)) {
        return vh::sf("key frame %g #%u, expected %g #%u", b.keyTs, b.keyIndex, a.keyTs, a.keyIndex);
      }
    }
  } else if (e.type == ContentType::AUDIO) {
    auto &a = e.media, &b = g.media;
    size_t strideA = a.frameStride ? a.frameStride : sampleSize(a.sample) * a.channels;
    if (a.auf != b.auf || a.sample != b.sample || a.channels != b.channels || a.rate != b.rate || strideA != b.frameStride || a.samples != b.samples) {
      return vh::sf("audio %d/%d %u channels %u Hz %u samples stride %u, expected %d/%d %u channels %u Hz %u samples stride %zu", (int)b.auf, (int)b.sample, b.channels, b.rate, b.samples, b.frameStride,
                    (int)a.auf, (int)a.sample, a.channels, a.rate, a.samples, strideA);
    }
  } else if (e.type == ContentType::CUSTOM && e.custom != g.custom) {
    return "custom format " + g.custom + " instead of " + e.custom;
  }
  if (e.bytes != g.bytes) {
    return vh::sf("block %zu (%s) %zu bytes delivered, %zu bytes recorded%s", e.index, toString(e.type).c_str(), g.bytes.size(), e.bytes.size(), e.bytes.size() == g.bytes.size() ? ", different" : "");
  }
  return {};
}
} // namespace vg
