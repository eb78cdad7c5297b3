// C21: images. mode default: raw frames of every pixel format, any dimensions and strides, normalized and compared,
// pixel by pixel, with scalar reference code written from the definitions of the formats. mode convert: the conversion
// functions called on exactly sized buffers. mode codec: PNG images made by this driver (every kind) or by the library,
// JPEG images, custom codecs and raw images in records: complete, truncated and damaged.
// USES: core utils
#include "vh.h"

#include <vrs/ContentBlockReader.h>
#include <vrs/RecordFormat.h>
#include <vrs/utils/BufferRecordReader.hpp>
#include <vrs/utils/DecoderFactory.h>
#include <vrs/utils/PixelConversions.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/converters/Grey10PackedConverters.h>
#include <vrs/utils/converters/Raw10ToGrey10Converter.h>

#include <jpeglib.h>
#include <png.h>

#include <sys/resource.h>
#include <csignal>

#include <cmath>
#include <limits>
#include <memory>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using vh::Case;
using vh::Rng;

namespace {

using Bytes = vector<uint8_t>;

struct Fmt {
  PixelFormat pf;
  const char* name;
  uint32_t bytes; // bytes per pixel, or 0 for formats with groups of pixels, or several planes
  uint32_t align;
};
const vector<Fmt> kFormats{
    {PixelFormat::GREY8, "grey8", 1, 1},
    {PixelFormat::BGR8, "bgr8", 3, 1},
    {PixelFormat::DEPTH32F, "depth32f", 4, 4},
    {PixelFormat::RGB8, "rgb8", 3, 1},
    {PixelFormat::YUV_I420_SPLIT, "i420", 0, 1},
    {PixelFormat::RGBA8, "rgba8", 4, 1},
    {PixelFormat::RGB10, "rgb10", 6, 2},
    {PixelFormat::RGB12, "rgb12", 6, 2},
    {PixelFormat::GREY10, "grey10", 2, 2},
    {PixelFormat::GREY12, "grey12", 2, 2},
    {PixelFormat::GREY16, "grey16", 2, 2},
    {PixelFormat::RGB32F, "rgb32f", 12, 4},
    {PixelFormat::SCALAR64F, "scalar64f", 8, 8},
    {PixelFormat::YUY2, "yuy2", 0, 1},
    {PixelFormat::RGB_IR_RAW_4X4, "rgbir", 1, 1},
    {PixelFormat::RGBA32F, "rgba32f", 16, 4},
    {PixelFormat::BAYER8_RGGB, "bayer8rggb", 1, 1},
    {PixelFormat::RAW10, "raw10", 0, 1},
    {PixelFormat::RAW10_BAYER_RGGB, "raw10rggb", 0, 1},
    {PixelFormat::RAW10_BAYER_BGGR, "raw10bggr", 0, 1},
    {PixelFormat::YUV_420_NV21, "nv21", 0, 1},
    {PixelFormat::YUV_420_NV12, "nv12", 0, 1},
    {PixelFormat::GREY10PACKED, "grey10packed", 0, 1},
    {PixelFormat::BAYER8_BGGR, "bayer8bggr", 1, 1},
    {PixelFormat::BAYER10_GBRG, "bayer10", 2, 2},
    {PixelFormat::BAYER8_GBRG, "bayer8gbrg", 1, 1}};

const Fmt& formatOf(PixelFormat pf) {
  for (const Fmt& f : kFormats) {
    if (f.pf == pf) {
      return f;
    }
  }
  abort();
}

bool isYuv(PixelFormat pf) {
  return pf == PixelFormat::YUV_I420_SPLIT || pf == PixelFormat::YUV_420_NV21 || pf == PixelFormat::YUV_420_NV12;
}
bool isRaw10(PixelFormat pf) {
  return pf == PixelFormat::RAW10 || pf == PixelFormat::RAW10_BAYER_RGGB || pf == PixelFormat::RAW10_BAYER_BGGR;
}

// bytes of a line of the first plane
uint32_t lineBytes(PixelFormat pf, uint32_t w) {
  const Fmt& f = formatOf(pf);
  return f.bytes ? f.bytes * w : isYuv(pf) ? w : pf == PixelFormat::YUY2 ? (w + 1) / 2 * 4 : (w + 3) / 4 * 5;
}

struct Image {
  PixelFormat pf = PixelFormat::GREY8;
  uint32_t w = 1, h = 1, stride = 1, stride2 = 0;
  Bytes data;

  size_t planeStart(uint32_t plane) const {
    size_t h2 = (h + 1) / 2;
    return plane == 0 ? 0 : size_t(stride) * h + (plane - 1) * h2 * stride2;
  }
  uint32_t planes() const {
    return pf == PixelFormat::YUV_I420_SPLIT ? 3 : isYuv(pf) ? 2 : 1;
  }
  size_t fullSize() const {
    return planeStart(planes());
  }
  // without the padding of the last line
  size_t leastSize() const {
    uint32_t line2 = pf == PixelFormat::YUV_I420_SPLIT ? (w + 1) / 2 : (w + 1) / 2 * 2;
    return fullSize() - (planes() > 1 ? stride2 - line2 : stride - lineBytes(pf, w));
  }
  ImageContentBlockSpec spec() const {
    return {pf, w, h, stride, stride2};
  }
  template <class T>
  T at(uint32_t x, uint32_t y, uint32_t ch = 0, uint32_t channels = 1) const {
    T v;
    memcpy(&v, data.data() + size_t(stride) * y + (size_t(x) * channels + ch) * sizeof(T), sizeof(T));
    return v;
  }
  string text() const {
    return vh::sf("%s %ux%u stride %u (%u needed) stride2 %u", formatOf(pf).name, w, h, stride, lineBytes(pf, w), stride2);
  }
};

double randomValue(Rng& r, bool dbl, bool finite) {
  double v;
  switch (r.below(finite ? 6 : 8)) {
    case 0:
      v = r.unit() * 10;
      break;
    case 1:
      v = r.unit() * 2 - 1;
      break;
    case 2:
      v = static_cast<double>(r.range(-300, 300));
      break;
    case 3:
      v = 0;
      break;
    case 4:
      v = r.unit() * 1e4;
      break;
    case 5:
      v = r.chance(0.5) ? 1 : r.unit() * (dbl ? 1e200 : 1e20);
      break;
    case 6:
      v = numeric_limits<double>::quiet_NaN();
      break;
    default:
      v = r.chance(0.5) ? numeric_limits<double>::infinity() : -numeric_limits<double>::infinity();
      break;
  }
  return v;
}

uint32_t randomDim(Rng& r) {
  return 1 + (r.chance(0.6) ? r.below(20) : r.chance(0.8) ? r.below(90) : r.below(400));
}

Image randomImage(Rng& r, PixelFormat pf) {
  Image m;
  m.pf = pf;
  m.w = randomDim(r);
  m.h = m.w > 90 ? 1 + r.below(40) : randomDim(r);
  const Fmt& f = formatOf(pf);
  uint32_t line = lineBytes(pf, m.w);
  m.stride = line;
  if (r.chance(0.5)) {
    m.stride += f.align * (1 + r.below(r.chance(0.7) ? 8 : 70));
  }
  if (isYuv(pf)) {
    m.stride2 = (pf == PixelFormat::YUV_I420_SPLIT ? (m.w + 1) / 2 : (m.w + 1) / 2 * 2) + (r.chance(0.4) ? r.below(9) : 0);
  }
  m.data.resize(m.fullSize());
  int style = static_cast<int>(r.below(4)); // random, flat, extremes, gradient
  uint8_t flat = static_cast<uint8_t>(r.next());
  for (size_t k = 0; k < m.data.size(); ++k) {
    m.data[k] = style == 0 ? static_cast<uint8_t>(r.next()) : style == 1 ? flat : style == 2 ? (r.chance(0.5) ? 255 : 0) : static_cast<uint8_t>(k);
  }
  // values within the range of the format
  uint16_t mask = pf == PixelFormat::GREY10 || pf == PixelFormat::RGB10 || pf == PixelFormat::BAYER10_GBRG ? 0x3ff : pf == PixelFormat::GREY12 || pf == PixelFormat::RGB12 ? 0xfff : 0xffff;
  if (f.align == 2) {
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < line / 2; ++x) {
        uint16_t v = m.at<uint16_t>(x, y) & mask;
        memcpy(m.data.data() + size_t(m.stride) * y + x * 2, &v, 2);
      }
    }
  } else if (f.align >= 4) {
    int kind = static_cast<int>(r.below(4)); // depth like, anything, flat, few valid
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < line / f.align; ++x) {
        bool special = r.chance(0.05);
        double v = kind == 0 ? (special ? randomValue(r, f.align == 8, false) : 0.3 + r.unit() * 5) : kind == 1 ? randomValue(r, f.align == 8, false) : kind == 2 ? 2.5 : (r.chance(0.9) ? -1 : r.unit());
        if (f.bytes > 8 && isinf(v)) {
          v = r.unit();
        }
        uint8_t* p = m.data.data() + size_t(m.stride) * y + size_t(x) * f.align;
        if (f.align == 8) {
          memcpy(p, &v, 8);
        } else {
          float fl = static_cast<float>(v);
          memcpy(p, &fl, 4);
        }
      }
    }
  }
  return m;
}

uint8_t clip(int v) {
  return v < 0 ? 0 : v > 255 ? 255 : static_cast<uint8_t>(v);
}

uint16_t packed10(const uint8_t* line, uint32_t x) { // bits of consecutive pixels follow each other
  uint32_t bit = x * 10;
  uint32_t v = 0;
  for (uint32_t k = 0; k < 10; ++k, ++bit) {
    v |= ((line[bit / 8] >> (bit % 8)) & 1u) << k;
  }
  return static_cast<uint16_t>(v);
}
uint16_t raw10(const uint8_t* line, uint32_t x) { // 4 high bytes, then the 4 pairs of low bits
  const uint8_t* g = line + x / 4 * 5;
  return static_cast<uint16_t>((g[x % 4] << 2) | ((g[4] >> (x % 4 * 2)) & 3));
}

struct Expected {
  bool convert = false;
  bool mayRefuse = false;
  PixelFormat pf = PixelFormat::UNDEFINED;
  int tolerance = 0;
  Bytes data; // without padding
};

template <class T>
void expectPercentiles(const Image& m, Expected& e) {
  vector<T> samples;
  for (uint32_t idx : pixel_conversions::R2Sampler2D(m.w, m.h, 5000)) {
    T v = m.at<T>(idx % m.w, idx / m.w);
    if (isfinite(v) && v > 0) {
      samples.push_back(v);
    }
  }
  sort(samples.begin(), samples.end());
  bool blank = samples.size() < 10;
  T lo = blank ? 0 : samples[samples.size() * 5 / 100];
  T hi = blank ? 0 : samples[samples.size() * 95 / 100];
  blank |= lo >= hi;
  e.tolerance = 1;
  for (uint32_t y = 0; y < m.h; ++y) {
    for (uint32_t x = 0; x < m.w; ++x) {
      T v = m.at<T>(x, y);
      e.data.push_back(blank || isnan(v) || v <= lo ? 0 : v >= hi ? 255 : static_cast<uint8_t>(double(v - lo) / double(hi - lo) * 255));
    }
  }
}

Expected expected(const Image& m, bool grey16, const NormalizeOptions& o) {
  Expected e;
  e.convert = true;
  auto each = [&](PixelFormat pf, const function<void(uint32_t, uint32_t)>& f) {
    e.pf = pf;
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < m.w; ++x) {
        f(x, y);
      }
    }
  };
  auto push16 = [&](uint32_t v) {
    e.data.push_back(static_cast<uint8_t>(v));
    e.data.push_back(static_cast<uint8_t>(v >> 8));
  };
  const uint8_t* d = m.data.data();
  switch (m.pf) {
    case PixelFormat::GREY16:
      if (o.semantic == ImageSemantic::ObjectClassSegmentation || o.semantic == ImageSemantic::ObjectIdSegmentation) {
        const auto& colors = o.semantic == ImageSemantic::ObjectClassSegmentation ? PixelFrame::getGetObjectClassSegmentationColors() : PixelFrame::getGetObjectIdSegmentationColors();
        each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) {
          const auto& col = colors[m.at<uint16_t>(x, y)];
          e.data.insert(e.data.end(), {col.r, col.g, col.b});
        });
      } else if (grey16) {
        e.convert = false;
      } else {
        each(PixelFormat::GREY8, [&](uint32_t x, uint32_t y) { e.data.push_back(static_cast<uint8_t>(m.at<uint16_t>(x, y) >> 8)); });
      }
      break;
    case PixelFormat::GREY10:
    case PixelFormat::BAYER10_GBRG:
    case PixelFormat::GREY12: {
      int bits = m.pf == PixelFormat::GREY12 ? 12 : 10;
      each(grey16 ? PixelFormat::GREY16 : PixelFormat::GREY8, [&](uint32_t x, uint32_t y) {
        uint16_t v = m.at<uint16_t>(x, y);
        if (grey16) {
          push16(uint32_t(v) << (16 - bits));
        } else {
          e.data.push_back(static_cast<uint8_t>(v >> (bits - 8)));
        }
      });
      break;
    }
    case PixelFormat::RGB10:
    case PixelFormat::RGB12:
      each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) {
        for (uint32_t ch = 0; ch < 3; ++ch) {
          e.data.push_back(static_cast<uint8_t>(m.at<uint16_t>(x, y, ch, 3) >> (m.pf == PixelFormat::RGB10 ? 2 : 4)));
        }
      });
      break;
    case PixelFormat::BGR8:
      each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) {
        for (uint32_t ch = 0; ch < 3; ++ch) {
          e.data.push_back(m.at<uint8_t>(x, y, 2 - ch, 3));
        }
      });
      break;
    case PixelFormat::RGB_IR_RAW_4X4:
      each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) { e.data.insert(e.data.end(), 3, m.at<uint8_t>(x, y)); });
      break;
    case PixelFormat::BAYER8_RGGB:
    case PixelFormat::BAYER8_BGGR:
    case PixelFormat::BAYER8_GBRG:
    case PixelFormat::YUV_I420_SPLIT:
    case PixelFormat::YUV_420_NV21:
    case PixelFormat::YUV_420_NV12:
      each(PixelFormat::GREY8, [&](uint32_t x, uint32_t y) { e.data.push_back(m.at<uint8_t>(x, y)); });
      break;
    case PixelFormat::RAW10:
    case PixelFormat::RAW10_BAYER_RGGB:
    case PixelFormat::RAW10_BAYER_BGGR:
    case PixelFormat::GREY10PACKED:
      e.mayRefuse = isRaw10(m.pf) && grey16 && m.w % 4 != 0; // documented restriction of the format
      each(grey16 ? PixelFormat::GREY16 : PixelFormat::GREY8, [&](uint32_t x, uint32_t y) {
        const uint8_t* line = d + size_t(m.stride) * y;
        uint16_t v = isRaw10(m.pf) ? raw10(line, x) : packed10(line, x);
        if (grey16) {
          push16(uint32_t(v) << 6);
        } else {
          e.data.push_back(static_cast<uint8_t>(v >> 2));
        }
      });
      break;
    case PixelFormat::YUY2:
      each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) {
        const uint8_t* g = d + size_t(m.stride) * y + x / 2 * 4;
        int cc = g[x % 2 * 2] - 16, dd = g[1] - 128, ee = g[3] - 128;
        e.data.insert(e.data.end(), {clip((298 * cc + 409 * ee + 128) >> 8), clip((298 * cc - 100 * dd - 208 * ee + 128) >> 8), clip((298 * cc + 516 * dd + 128) >> 8)});
      });
      break;
    case PixelFormat::RGB32F:
    case PixelFormat::RGBA32F: {
      uint32_t n = m.pf == PixelFormat::RGB32F ? 3 : 4;
      float lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
      for (uint32_t ch = 0; ch < 3; ++ch) {
        bool any = false;
        for (uint32_t y = 0; y < m.h; ++y) {
          for (uint32_t x = 0; x < m.w; ++x) {
            float v = m.at<float>(x, y, ch, n);
            if (!isnan(v)) {
              lo[ch] = any ? min(lo[ch], v) : v;
              hi[ch] = any ? max(hi[ch], v) : v;
              any = true;
            }
          }
        }
      }
      e.tolerance = 1;
      each(PixelFormat::RGB8, [&](uint32_t x, uint32_t y) {
        for (uint32_t ch = 0; ch < 3; ++ch) {
          float v = m.at<float>(x, y, ch, n);
          e.data.push_back(isnan(v) || hi[ch] <= lo[ch] ? 0 : static_cast<uint8_t>((double(v) - lo[ch]) / (double(hi[ch]) - lo[ch]) * 255));
        }
      });
      break;
    }
    case PixelFormat::DEPTH32F:
      e.pf = PixelFormat::GREY8;
      if (o.semantic == ImageSemantic::Depth && o.min < o.max) {
        e.tolerance = 1;
        each(PixelFormat::GREY8, [&](uint32_t x, uint32_t y) {
          float v = m.at<float>(x, y);
          e.data.push_back(isnan(v) || v <= o.min ? 0 : v >= o.max ? 255 : static_cast<uint8_t>((double(v) - o.min) / (double(o.max) - o.min) * 255));
        });
      } else {
        expectPercentiles<float>(m, e);
      }
      break;
    case PixelFormat::SCALAR64F:
      e.pf = PixelFormat::GREY8;
      expectPercentiles<double>(m, e);
      break;
    default:
      e.convert = false;
      break;
  }
  return e;
}

void compare(Case& c, const string& key, const string& what, const PixelFrame& f, PixelFormat pf, uint32_t w, uint32_t h, const Bytes& data, int tolerance = 0) {
  if (!c.check(f.getImageFormat() == ImageFormat::RAW && f.getPixelFormat() == pf && f.getWidth() == w && f.getHeight() == h, key + ".spec", "%s gave %s", what.c_str(), f.getSpec().asString().c_str())) {
    return;
  }
  uint32_t line = lineBytes(pf, w);
  if (!c.check(f.getStride() >= line && f.size() >= size_t(f.getStride()) * (h - 1) + line, key + ".size", "%s gave %s with %zu bytes", what.c_str(), f.getSpec().asString().c_str(), f.size())) {
    return;
  }
  for (uint32_t y = 0; y < h; ++y) {
    const uint8_t* p = f.rdata() + size_t(f.getStride()) * y;
    for (uint32_t x = 0; x < line; ++x) {
      if (abs(int(p[x]) - int(data[size_t(y) * line + x])) > tolerance) {
        c.fail(key + ".pixels", "%s: line %u byte %u is %u, not %u", what.c_str(), y, x, p[x], data[size_t(y) * line + x]);
        return;
      }
    }
  }
  c.count("pixels", int64_t(w) * h);
}

Bytes withoutPadding(const Image& m) {
  Bytes out;
  uint32_t line = lineBytes(m.pf, m.w);
  for (uint32_t y = 0; y < m.h; ++y) {
    auto p = m.data.begin() + static_cast<ptrdiff_t>(size_t(m.stride) * y);
    out.insert(out.end(), p, p + line);
  }
  return out;
}

shared_ptr<PixelFrame> dirtyFrame(Rng& r, const Image& m) {
  if (r.chance(0.3)) {
    return nullptr;
  }
  static const vector<PixelFormat> kOut{PixelFormat::GREY8, PixelFormat::GREY16, PixelFormat::RGB8};
  auto f = r.chance(0.7) ? make_shared<PixelFrame>(r.pick(kOut), m.w, m.h) : make_shared<PixelFrame>(r.pick(kOut), randomDim(r), randomDim(r));
  for (auto& b : f->getBuffer()) {
    b = static_cast<uint8_t>(r.next());
  }
  return f;
}

struct Record {
  BufferReader reader;
  BufferFileHandler file;
};

shared_ptr<PixelFrame> makeFrame(Case& c, const Image& m) {
  Rng& r = c.rng;
  switch (r.below(5)) {
    case 0: {
      auto f = make_shared<PixelFrame>(m.spec());
      c.check(f->size() == m.fullSize(), "frame.size", "a frame made for %s holds %zu bytes, not %zu", m.text().c_str(), f->size(), m.fullSize());
      memcpy(f->wdata(), m.data.data(), min(f->size(), m.data.size()));
      return f;
    }
    case 1:
      return make_shared<PixelFrame>(m.spec(), Bytes(m.data));
    case 2: {
      auto f = dirtyFrame(r, m);
      PixelFrame& pf = PixelFrame::init(f, m.spec());
      memcpy(pf.wdata(), m.data.data(), min(pf.size(), m.data.size()));
      return f;
    }
    case 3: {
      auto f = dirtyFrame(r, m);
      BufferReader reader;
      bool ok = PixelFrame::make(f).readRawFrame(reader.init(m.data), m.spec(), true);
      c.check(ok, "raw.read", "%s can't be read", m.text().c_str());
      return f;
    }
    default: {
      auto f = make_shared<PixelFrame>();
      f->init(m.spec(), Bytes(m.data));
      return f;
    }
  }
}

bool normalize(Rng& r, const shared_ptr<PixelFrame>& source, shared_ptr<PixelFrame>& out, bool grey16, const NormalizeOptions& o) {
  switch (r.below(3)) {
    case 0:
      PixelFrame::normalizeFrame(source, out, grey16, o);
      return out != source;
    case 1:
      return source->normalizeFrame(out, grey16, o);
    default:
      return source->normalizeFrame(PixelFrame::make(out), grey16, o, r.chance(0.5) ? PixelFormat::UNDEFINED : PixelFrame::getNormalizedPixelFormat(source->getPixelFormat(), grey16, o));
  }
}

void frameCase(Case& c) {
  Rng& r = c.rng;
  Image m = randomImage(r, r.pick(kFormats).pf);
  if (r.chance(0.1)) {
    m = randomImage(r, r.chance(0.5) ? PixelFormat::DEPTH32F : PixelFormat::SCALAR64F);
  }
  c.signature(m.text());
  string what = m.text();
  uint32_t line = lineBytes(m.pf, m.w);
  c.count(m.stride == line ? "frames_tight" : "frames_padded");
  c.count(string("format_") + formatOf(m.pf).name);
  shared_ptr<PixelFrame> frame = makeFrame(c, m);
  if (frame->size() != m.data.size() || memcmp(frame->rdata(), m.data.data(), m.data.size()) != 0) {
    c.fail("frame.bytes", "%s: the frame made has other bytes", what.c_str());
    return;
  }
  // normalization
  bool grey16 = r.chance(0.5);
  NormalizeOptions o;
  if (r.chance(0.5)) {
    o = NormalizeOptions(r.pick({ImageSemantic::Camera, ImageSemantic::ObjectClassSegmentation, ImageSemantic::ObjectIdSegmentation, ImageSemantic::Depth}));
    if (r.chance(0.7)) {
      o.min = static_cast<float>(r.unit() * 4 - 1);
      o.max = static_cast<float>(r.unit() * 8 - 1);
    }
    o.speedOverPrecision = r.chance(0.5);
  }
  Expected e = expected(m, grey16, o);
  what += vh::sf(" grey16 %d semantic %d [%g, %g]", grey16, int(o.semantic), o.min, o.max);
  shared_ptr<PixelFrame> out = dirtyFrame(r, m);
  bool done = normalize(r, frame, out, grey16, o);
  if (frame->size() != m.data.size() || memcmp(frame->rdata(), m.data.data(), m.data.size()) != 0 || frame->getPixelFormat() != m.pf || frame->getWidth() != m.w || frame->getHeight() != m.h) {
    c.fail("normalize.source", "%s: the source was modified", what.c_str());
    return;
  }
  if (done != e.convert && !(e.mayRefuse && !done)) {
    c.fail("normalize.done", "%s was%s converted", what.c_str(), done ? "" : " not");
    return;
  }
  if (done) {
    c.count("normalized");
    compare(c, "normalize", what, *out, e.pf, m.w, m.h, e.data, e.tolerance);
  }
  // frames that don't have all their data are refused
  if (r.chance(0.4)) {
    bool compressed = r.chance(0.2);
    bool least = !compressed && r.chance(0.3);
    size_t has = least ? m.leastSize() : r.below(m.planes() > 1 ? size_t(m.stride) * (m.h - 1) + line : m.leastSize());
    Bytes part(m.data.begin(), m.data.begin() + static_cast<ptrdiff_t>(has));
    ImageContentBlockSpec spec = m.spec();
    if (compressed) {
      spec = ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, "zz", 255, m.pf, m.w, m.h, m.stride, m.stride2);
    }
    auto lacking = make_shared<PixelFrame>(spec, std::move(part));
    out = dirtyFrame(r, m);
    done = normalize(r, lacking, out, grey16, o);
    if (least) {
      if (done && e.convert) {
        compare(c, "least", what, *out, e.pf, m.w, m.h, e.data, e.tolerance);
      }
    } else {
      c.check(!done, "lacking.normalize", "%s with only %zu bytes (needs %zu) was normalized%s", what.c_str(), has, m.fullSize(), compressed ? " (a custom codec image)" : "");
      Bytes png, jpg;
      bool canPng = PixelFrame::areCompatible(ImageFormat::PNG, m.pf), canJpg = PixelFrame::areCompatible(ImageFormat::JPG, m.pf);
      if (canPng) {
        c.check(lacking->writeAsPng("", &png) != 0, "lacking.png", "%s with only %zu bytes was written as png", what.c_str(), has);
      }
      if (canJpg) {
        c.check(!lacking->jpgCompress(jpg, 50), "lacking.jpg", "%s with only %zu bytes was written as jpg", what.c_str(), has);
        double psnr = 0;
        c.check(!lacking->psnrCompare(*frame, psnr) && !frame->psnrCompare(*lacking, psnr), "lacking.psnr", "%s with only %zu bytes was compared", what.c_str(), has);
      }
      shared_ptr<PixelFrame> rgb;
      c.check(!lacking->convertRgbaToRgb(rgb) && !lacking->inplaceRgbaToRgb(), "lacking.rgba", "%s with only %zu bytes was converted to rgb", what.c_str(), has);
      c.count("lacking");
    }
  }
  // RGBA to RGB
  if (m.pf == PixelFormat::RGBA8) {
    Bytes rgb;
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < m.w; ++x) {
        for (uint32_t ch = 0; ch < 3; ++ch) {
          rgb.push_back(m.at<uint8_t>(x, y, ch, 4));
        }
      }
    }
    shared_ptr<PixelFrame> rgbFrame = dirtyFrame(r, m);
    if (c.check(frame->convertRgbaToRgb(rgbFrame), "rgba.refused", "%s not converted", what.c_str())) {
      compare(c, "rgba", what, *rgbFrame, PixelFormat::RGB8, m.w, m.h, rgb);
    }
    PixelFrame copy(*frame);
    if (c.check(copy.inplaceRgbaToRgb(), "rgba.refused_in_place", "%s not converted", what.c_str())) {
      compare(c, "rgba_in_place", what, copy, PixelFormat::RGB8, m.w, m.h, rgb);
    }
    c.count("rgba_to_rgb", 2);
  } else {
    shared_ptr<PixelFrame> rgbFrame;
    c.check(!frame->convertRgbaToRgb(rgbFrame) && !frame->inplaceRgbaToRgb(), "rgba.other", "%s converted from RGBA", what.c_str());
  }
  // comparing
  if (m.pf == PixelFormat::GREY8 || m.pf == PixelFormat::RGB8) {
    Image m2 = m;
    m2.stride = line + (r.chance(0.5) ? r.below(20) : 0);
    m2.data.assign(m2.fullSize(), static_cast<uint8_t>(r.next()));
    double err = 0;
    bool differ = r.chance(0.6);
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < line; ++x) {
        uint8_t v = m.data[size_t(m.stride) * y + x];
        uint8_t v2 = differ && r.chance(0.2) ? static_cast<uint8_t>(r.next()) : v;
        m2.data[size_t(m2.stride) * y + x] = v2;
        err += (double(v) - v2) * (double(v) - v2);
      }
    }
    PixelFrame other(m2.spec(), Bytes(m2.data));
    double psnr = -1, want = err == 0 ? 100 : 10 * log10(255. * 255. / (err / (double(line) * m.h)));
    bool ok = r.chance(0.5) ? frame->psnrCompare(other, psnr) : other.psnrCompare(*frame, psnr);
    c.check(ok && fabs(psnr - want) < 1e-6 * fabs(want) + 1e-9, "psnr", "%s against stride %u: %d %g, not %g", what.c_str(), m2.stride, ok, psnr, want);
    c.count("psnr");
  }
  // swapping and blanking
  if (r.chance(0.3)) {
    Image m3 = randomImage(r, r.chance(0.5) ? m.pf : r.pick(kFormats).pf);
    PixelFrame a(m.spec(), Bytes(m.data)), b(m3.spec(), Bytes(m3.data));
    a.swap(b);
    auto is = [](PixelFrame& f, const Image& i) {
      return f.getPixelFormat() == i.pf && f.getWidth() == i.w && f.getHeight() == i.h && f.getStride() == i.stride && f.getPlaneStride(1) == i.stride2 && f.getBuffer() == i.data;
    };
    c.check(is(a, m3) && is(b, m), "swap", "%s and %s were not swapped", m.text().c_str(), m3.text().c_str());
    b.blankFrame();
    bool blank = true;
    for (uint32_t y = 0; y < m.h && blank; ++y) {
      for (uint32_t x = 0; x < line && blank; ++x) {
        blank = b.rdata()[size_t(m.stride) * y + x] == (m.pf == PixelFormat::RGBA8 && x % 4 == 3 ? 255 : 0);
      }
    }
    c.check(blank && b.size() == m.data.size(), "blank", "%s is not black once blanked", m.text().c_str());
    c.count("swapped");
  }
}

// conversion functions, on exactly sized blocks of memory at any alignment
struct Block {
  unique_ptr<uint8_t[]> all;
  uint8_t* p;
  size_t n;
  Block(size_t size, size_t misalign = 0) : all(new uint8_t[size + misalign]), p(all.get() + misalign), n(size) {}
  void fill(Rng& r) {
    for (size_t k = 0; k < n; ++k) {
      p[k] = static_cast<uint8_t>(r.next());
    }
  }
};

void convertCase(Case& c) {
  Rng& r = c.rng;
  uint32_t w = randomDim(r), h = w > 90 ? 1 + r.below(20) : randomDim(r);
  int kind = static_cast<int>(r.below(9));
  size_t mis = r.chance(0.5) ? r.below(8) : 0, mis2 = r.chance(0.5) ? r.below(8) : 0;
  auto pad = [&]() -> uint32_t { return r.chance(0.5) ? 0 : r.chance(0.7) ? r.below(9) : r.below(50); };
  auto pad2 = [&]() -> uint32_t { return pad() * 2; };
  string what = vh::sf("conversion %d of %ux%u", kind, w, h);
  c.signature(what + vh::sf(" %zu %zu", mis, mis2));
  c.count(vh::sf("conversion_%d", kind));
  auto sized = [&](uint32_t stride, uint32_t line) { return size_t(stride) * (h - 1) + line; };
  auto expectByte = [&](const Block& out, size_t at, uint8_t v, uint32_t x, uint32_t y) {
    if (out.p[at] != v) {
      c.fail(vh::sf("convert.%d", kind), "%s: pixel %u of line %u is %u, not %u", what.c_str(), x, y, out.p[at], v);
      return false;
    }
    return true;
  };
  c.count("pixels", int64_t(w) * h);
  switch (kind) {
    case 0: {
      uint32_t s = w * 4 + pad(), d = w * 3 + pad();
      Block in(sized(s, w * 4), mis), out(sized(d, w * 3), mis2);
      in.fill(r);
      out.fill(r);
      Bytes before(out.p, out.p + out.n);
      pixel_conversions::convertRgbaToRgb(in.p, s, out.p, d, w, h);
      for (uint32_t y = 0; y < h; ++y) {
        for (uint32_t x = 0; x < d && size_t(d) * y + x < out.n; ++x) {
          size_t at = size_t(d) * y + x;
          if (!expectByte(out, at, x < w * 3 ? in.p[size_t(s) * y + x / 3 * 4 + x % 3] : before[at], x / 3, y)) {
            return;
          }
        }
      }
      break;
    }
    case 1: {
      uint32_t n = w * h;
      Block in(n * 3, mis), out(n * 3, mis2);
      in.fill(r);
      pixel_conversions::convertBgr8ToRgb8(in.p, out.p, n);
      for (uint32_t k = 0; k < n * 3; ++k) {
        if (!expectByte(out, k, in.p[k / 3 * 3 + 2 - k % 3], k / 3, 0)) {
          return;
        }
      }
      break;
    }
    case 2: {
      uint32_t line = (w + 3) / 4 * 5, s = line + pad(), d = w + pad();
      Block in(sized(s, line), mis), out(sized(d, w), mis2);
      in.fill(r);
      out.fill(r);
      Bytes before(out.p, out.p + out.n);
      pixel_conversions::convertRaw10ToGrey8(in.p, s, out.p, d, w, h);
      for (size_t at = 0; at < out.n; ++at) {
        uint32_t x = at % d, y = static_cast<uint32_t>(at / d);
        if (!expectByte(out, at, x < w ? static_cast<uint8_t>(raw10(in.p + size_t(s) * y, x) >> 2) : before[at], x, y)) {
          return;
        }
      }
      break;
    }
    case 3: {
      uint32_t s = w + pad(), d = w * 3 + pad();
      Block in(sized(s, w), mis), out(sized(d, w * 3), mis2);
      in.fill(r);
      out.fill(r);
      Bytes before(out.p, out.p + out.n);
      pixel_conversions::convertGreyToRgb8(in.p, s, out.p, d, w, h);
      for (size_t at = 0; at < out.n; ++at) {
        uint32_t x = at % d, y = static_cast<uint32_t>(at / d);
        if (!expectByte(out, at, x < w * 3 ? in.p[size_t(s) * y + x / 3] : before[at], x / 3, y)) {
          return;
        }
      }
      break;
    }
    case 4: {
      uint32_t line = (w + 1) / 2 * 4, s = line + pad(), d = w * 3 + pad();
      Block in(sized(s, line), mis), out(sized(d, w * 3), mis2);
      in.fill(r);
      out.fill(r);
      Bytes before(out.p, out.p + out.n);
      pixel_conversions::convertYuy2ToRgb8(in.p, s, out.p, d, w, h);
      for (size_t at = 0; at < out.n; ++at) {
        uint32_t x = at % d, y = static_cast<uint32_t>(at / d);
        uint8_t v = before[at];
        if (x < w * 3) {
          const uint8_t* g = in.p + size_t(s) * y + x / 6 * 4;
          int cc = g[x / 3 % 2 * 2] - 16, dd = g[1] - 128, ee = g[3] - 128;
          v = x % 3 == 0 ? clip((298 * cc + 409 * ee + 128) >> 8) : x % 3 == 1 ? clip((298 * cc - 100 * dd - 208 * ee + 128) >> 8) : clip((298 * cc + 516 * dd + 128) >> 8);
        }
        if (!expectByte(out, at, v, x / 3, y)) {
          return;
        }
      }
      break;
    }
    case 5: {
      if (r.chance(0.8)) {
        w = (w + 3) / 4 * 4;
      }
      uint32_t least = w * 10 / 8, s = least + pad();
      bool refuse = w % 4 != 0;
      if (r.chance(0.1)) {
        s = static_cast<uint32_t>(r.below(least));
        refuse = true;
      }
      Block in(refuse ? 1 : sized(s, least), mis), out(refuse ? 1 : size_t(w) * h * 2);
      in.fill(r);
      bool ok = convertRaw10ToGrey10(out.p, in.p, w, h, s);
      if (!c.check(ok == !refuse, "raw10.status", "%s stride %u: %d", what.c_str(), s, ok)) {
        return;
      }
      c.count(ok ? "converted" : "conversions_refused");
      for (uint32_t y = 0; ok && y < h; ++y) {
        for (uint32_t x = 0; x < w; ++x) {
          uint16_t v = 0, want = raw10(in.p + size_t(s) * y, x);
          memcpy(&v, out.p + (size_t(w) * y + x) * 2, 2);
          if (v != want) {
            c.fail("raw10.pixels", "%s stride %u: pixel %u of line %u is %u, not %u", what.c_str(), s, x, y, v, want);
            return;
          }
        }
      }
      break;
    }
    case 6:
    case 7:
    case 8: {
      // 6: packed to grey16, 7: packed to grey8, 8: grey10 to packed
      uint32_t inLine = kind == 8 ? w * 2 : (w + 3) / 4 * 5, outLine = kind == 6 ? w * 2 : kind == 7 ? w : (w + 3) / 4 * 5;
      uint32_t s = inLine + (kind == 8 ? pad2() : pad()), d = outLine + (kind == 6 ? pad2() : pad());
      size_t inSize = size_t(s) * h, outSize = size_t(d) * h;
      bool refuse = false;
      if (r.chance(0.3)) {
        refuse = true;
        switch (r.below(6)) {
          case 0:
            inSize = r.below(size_t(s) * (h - 1) + inLine);
            break;
          case 1:
            outSize = r.below(size_t(d) * (h - 1) + outLine);
            break;
          case 2:
            s = static_cast<uint32_t>(r.below(inLine));
            break;
          case 3:
            d = static_cast<uint32_t>(r.below(outLine)) & (kind == 6 ? ~1u : ~0u);
            outSize = size_t(d) * h;
            break;
          case 4: // sizes that don't fit in 32 bits
            h = 2;
            s = 0x80000000u;
            break;
          default:
            h = 2;
            d = 0x80000000u;
            break;
        }
      }
      Block in(inSize, kind == 8 ? 0 : mis), out(outSize, kind == 6 ? 0 : mis2);
      in.fill(r);
      out.fill(r);
      Bytes before(out.p, out.p + out.n);
      if (kind == 8 && !refuse) {
        for (size_t k = 0; k + 1 < in.n; k += 2) {
          in.p[k + 1] &= 3;
        }
      }
      auto f = kind == 6 ? convertGrey10PackedToGrey16 : kind == 7 ? convertGrey10PackedToGrey8 : convertGrey10ToGrey10Packed;
      bool ok = f(out.p, static_cast<uint32_t>(out.n), d, in.p, static_cast<uint32_t>(in.n), w, h, s);
      what += vh::sf(" in %zu stride %u out %zu stride %u", in.n, s, out.n, d);
      if (!c.check(ok == !refuse, vh::sf("packed.status.%d", kind), "%s: %d", what.c_str(), ok)) {
        return;
      }
      c.count(ok ? "converted" : "conversions_refused");
      for (size_t at = 0; ok && at < out.n; ++at) {
        uint32_t x = at % d, y = static_cast<uint32_t>(at / d);
        const uint8_t* line = in.p + size_t(s) * y;
        uint8_t v = before[at];
        if (x < outLine) {
          if (kind == 6) {
            uint32_t g = packed10(line, x / 2) << 6;
            v = static_cast<uint8_t>(x % 2 ? g >> 8 : g);
          } else if (kind == 7) {
            v = static_cast<uint8_t>(packed10(line, x) >> 2);
          } else {
            v = 0;
            for (uint32_t bit = 0; bit < 8; ++bit) {
              uint32_t px = (x * 8 + bit) / 10;
              if (px < w) {
                uint16_t g;
                memcpy(&g, line + px * 2, 2);
                v |= static_cast<uint8_t>(((g >> ((x * 8 + bit) % 10)) & 1) << bit);
              }
            }
          }
        }
        if (!expectByte(out, at, v, x, y)) {
          return;
        }
      }
      break;
    }
    default:
      break;
  }
}

// ---- PNG

void pngWrite(png_structp p, png_bytep data, png_size_t n) {
  auto* out = static_cast<Bytes*>(png_get_io_ptr(p));
  out->insert(out->end(), data, data + n);
}

struct Png {
  Bytes file;
  uint32_t w = 1, h = 1;
  int depth = 8, color = 0;
  bool transparency = false, interlaced = false;
  // how it has to be decoded
  PixelFormat pf = PixelFormat::UNDEFINED; // undefined: not supported
  Bytes pixels;
  int tolerance = 0;
  size_t dataStart = 0;
};

Png randomPng(Rng& r) {
  Png g;
  g.w = randomDim(r);
  g.h = g.w > 90 ? 1 + r.below(10) : randomDim(r);
  static const vector<pair<int, int>> kinds{{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}};
  auto k = r.pick(kinds);
  g.color = k.first;
  g.depth = k.second;
  g.interlaced = r.chance(0.3);
  g.transparency = (g.color == 3 || g.color == 0 || g.color == 2) && r.chance(0.3);
  uint32_t channels = g.color == 2 ? 3 : g.color == 4 ? 2 : g.color == 6 ? 4 : 1;
  size_t rowBytes = (size_t(g.w) * channels * g.depth + 7) / 8;
  vector<Bytes> rows(g.h, Bytes(rowBytes));
  bool flat = r.chance(0.2);
  for (auto& row : rows) {
    for (auto& b : row) {
      b = flat ? 0x5a : static_cast<uint8_t>(r.next());
    }
  }
  vector<png_color> palette(size_t(1) << min(g.depth, 8));
  for (auto& col : palette) {
    col = {static_cast<uint8_t>(r.next()), static_cast<uint8_t>(r.next()), static_cast<uint8_t>(r.next())};
  }
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
  png_infop info = png_create_info_struct(p);
  png_set_write_fn(p, &g.file, pngWrite, nullptr);
  png_set_IHDR(p, info, g.w, g.h, g.depth, g.color, g.interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  if (g.color == 3) {
    png_set_PLTE(p, info, palette.data(), static_cast<int>(palette.size()));
  }
  Bytes alpha(palette.size());
  if (g.transparency) {
    png_color_16 key{};
    key.gray = static_cast<uint16_t>(r.next() & ((1u << g.depth) - 1));
    key.red = key.green = key.blue = key.gray;
    for (auto& a : alpha) {
      a = static_cast<uint8_t>(r.next());
    }
    if (g.color == 3) {
      png_set_tRNS(p, info, alpha.data(), static_cast<int>(alpha.size()), nullptr);
    } else {
      png_set_tRNS(p, info, nullptr, 0, &key);
    }
  }
  png_text text{};
  string comment(r.below(30), 'x');
  if (r.chance(0.2)) {
    text.compression = PNG_TEXT_COMPRESSION_NONE;
    text.key = const_cast<char*>("Comment");
    text.text = comment.data();
    text.text_length = comment.size();
    png_set_text(p, info, &text, 1);
  }
  png_write_info(p, info);
  g.dataStart = g.file.size();
  vector<png_bytep> ptrs;
  for (auto& row : rows) {
    ptrs.push_back(row.data());
  }
  png_write_image(p, ptrs.data());
  png_write_end(p, nullptr);
  png_destroy_write_struct(&p, &info);
  // the pixels these samples stand for
  auto sample = [&](uint32_t x, uint32_t y, uint32_t ch) -> uint32_t {
    const Bytes& row = rows[y];
    size_t i = size_t(x) * channels + ch;
    if (g.depth == 16) {
      return (uint32_t(row[i * 2]) << 8) | row[i * 2 + 1];
    }
    size_t bit = i * g.depth;
    return (row[bit / 8] >> (8 - g.depth - bit % 8)) & ((1u << g.depth) - 1);
  };
  g.pf = g.color == 0 ? (g.depth == 16 ? PixelFormat::GREY16 : PixelFormat::GREY8) : g.color == 6 ? PixelFormat::RGBA8 : g.color == 4 ? PixelFormat::UNDEFINED : PixelFormat::RGB8;
  g.tolerance = g.depth == 16 && g.color != 0 ? 1 : 0;
  for (uint32_t y = 0; y < g.h; ++y) {
    for (uint32_t x = 0; x < g.w; ++x) {
      if (g.color == 3) {
        const auto& col = palette[sample(x, y, 0)];
        g.pixels.insert(g.pixels.end(), {col.red, col.green, col.blue});
      } else if (g.pf == PixelFormat::GREY16) {
        uint32_t v = sample(x, y, 0);
        g.pixels.insert(g.pixels.end(), {static_cast<uint8_t>(v), static_cast<uint8_t>(v >> 8)});
      } else {
        for (uint32_t ch = 0; ch < channels; ++ch) {
          uint32_t v = sample(x, y, ch);
          g.pixels.push_back(static_cast<uint8_t>(g.depth == 16 ? v >> 8 : v * 255 / ((1u << g.depth) - 1)));
        }
      }
    }
  }
  return g;
}

bool decode(Rng& r, PixelFrame& f, const Bytes& data, ImageFormat format, ImageContentBlockSpec hint = {}) {
  BufferReader reader;
  ImageContentBlockSpec spec(format);
  if (r.chance(0.3)) {
    spec = ImageContentBlockSpec(format, 3 + uint32_t(r.below(5)), 3); // dimensions told by the record, possibly wrong
  }
  ContentBlock block(spec, data.size());
  switch (r.below(5)) {
    case 0:
      return f.readFrame(reader.init(data), block);
    case 1:
      return format == ImageFormat::PNG ? f.readPngFrame(data) : f.readJpegFrame(data);
    case 2:
      return f.readCompressedFrame(data, format);
    case 3:
      return format == ImageFormat::PNG ? f.readPngFrame(reader.init(data), static_cast<uint32_t>(data.size())) : f.readJpegFrame(reader.init(data), static_cast<uint32_t>(data.size()));
    default:
      return f.readDiskImageData(reader.init(data), block) && f.decompressImage();
  }
}

Bytes damage(Rng& r, const Bytes& file) {
  Bytes b = file;
  int n = 1 + static_cast<int>(r.below(4));
  for (int k = 0; k < n && !b.empty(); ++k) {
    size_t at = r.chance(0.3) ? r.below(min<size_t>(b.size(), 64)) : min<size_t>(b.size() - 1, 33 + r.below(b.size()));
    switch (r.below(4)) {
      case 0:
        b[at] ^= static_cast<uint8_t>(1u << r.below(8));
        break;
      case 1:
        b[at] = static_cast<uint8_t>(r.next());
        break;
      case 2:
        b.insert(b.begin() + static_cast<ptrdiff_t>(at), static_cast<uint8_t>(r.next()));
        break;
      default:
        b.erase(b.begin() + static_cast<ptrdiff_t>(at), b.begin() + static_cast<ptrdiff_t>(min(b.size(), at + 1 + r.below(8))));
        break;
    }
  }
  return b;
}

// damaged dimensions make images take a lot of memory and time: not too often
bool claimsALot(const Bytes& b) {
  auto big = [&](size_t at, int n) {
    uint64_t v = 0;
    for (int k = 0; k < n; ++k) {
      v = (v << 8) | b[at + k];
    }
    return v;
  };
  if (b.size() > 24 && b[0] == 0x89) {
    return big(16, 4) * big(20, 4) > 1000000;
  }
  for (size_t k = 0; k + 9 < b.size(); ++k) {
    if (b[k] == 0xff && b[k + 1] >= 0xc0 && b[k + 1] <= 0xc2 && big(k + 5, 2) * big(k + 7, 2) > 1000000) {
      return true;
    }
  }
  return false;
}

// recompute the CRCs, so that damaged chunks are looked at
void fixCrcs(Bytes& b) {
  size_t at = 8;
  while (at + 12 <= b.size()) {
    size_t n = (size_t(b[at]) << 24) | (size_t(b[at + 1]) << 16) | (size_t(b[at + 2]) << 8) | b[at + 3];
    if (n > b.size() || at + 12 + n > b.size()) {
      break;
    }
    uint32_t crc = 0xffffffffu;
    for (size_t k = at + 4; k < at + 8 + n; ++k) {
      crc ^= b[k];
      for (int bit = 0; bit < 8; ++bit) {
        crc = (crc >> 1) ^ (crc & 1 ? 0xedb88320u : 0);
      }
    }
    crc ^= 0xffffffffu;
    for (int k = 0; k < 4; ++k) {
      b[at + 8 + n + k] = static_cast<uint8_t>(crc >> (24 - 8 * k));
    }
    at += 12 + n;
  }
}

void pngCase(Case& c) {
  Rng& r = c.rng;
  Png g;
  string what;
  if (r.chance(0.35)) {
    static const vector<PixelFormat> kPng{PixelFormat::GREY8, PixelFormat::GREY16, PixelFormat::RGB8, PixelFormat::RGBA8};
    Image m = randomImage(r, r.pick(kPng));
    auto frame = makeFrame(c, m);
    what = "png of " + m.text();
    if (r.chance(0.3)) {
      string path = c.file("i.png");
      c.check(frame->writeAsPng(path) == 0, "png.write", "%s not written", what.c_str());
      auto v = vh::slurp(path);
      g.file.assign(v.begin(), v.end());
      unlink(path.c_str());
      c.count("png_files");
      if (r.chance(0.4) && !g.file.empty()) {
        // a "disk" that gets full
        rlimit old{};
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit limited = old;
        limited.rlim_cur = r.below(g.file.size());
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &limited);
        int status = frame->writeAsPng(path);
        setrlimit(RLIMIT_FSIZE, &old);
        unlink(path.c_str());
        c.check(status != 0, "png.disk_full", "%s: success, but only %zu of %zu bytes can be written", what.c_str(), size_t(limited.rlim_cur), g.file.size());
        c.count("png_disk_full");
      }
      if (r.chance(0.2)) {
        c.check(frame->writeAsPng(c.tmp + "/no/such/dir.png") != 0, "png.write_nowhere", "%s written to a folder that doesn't exist", what.c_str());
      }
    } else {
      if (r.chance(0.5)) {
        g.file.resize(r.below(100), 7);
      }
      c.check(frame->writeAsPng("", &g.file) == 0, "png.write", "%s not written", what.c_str());
    }
    g.w = m.w;
    g.h = m.h;
    g.pf = m.pf;
    g.pixels = withoutPadding(m);
    c.count("png_made_by_vrs");
  } else {
    g = randomPng(r);
    what = vh::sf("png of color type %d depth %d %ux%u%s%s", g.color, g.depth, g.w, g.h, g.interlaced ? " interlaced" : "", g.transparency ? " with transparency" : "");
    c.count(g.interlaced ? "png_interlaced" : "png_plain");
  }
  c.signature(what);
  Image like;
  like.w = g.w;
  like.h = g.h;
  auto f = dirtyFrame(r, like);
  bool ok = decode(r, PixelFrame::make(f), g.file, ImageFormat::PNG);
  if (!c.check(ok == (g.pf != PixelFormat::UNDEFINED), "png.decode", "%s: %d", what.c_str(), ok)) {
    return;
  }
  if (ok) {
    c.count("png_decoded");
    compare(c, "png", what, *f, g.pf, g.w, g.h, g.pixels, g.tolerance);
    PixelFrame formatOnly;
    ok = formatOnly.readPngFrame(g.file, false);
    c.check(ok && formatOnly.getPixelFormat() == g.pf && formatOnly.getWidth() == g.w && formatOnly.getHeight() == g.h, "png.format", "%s: only reading the format gives %s", what.c_str(), formatOnly.getSpec().asString().c_str());
  }
  // lossless or refused
  for (int k = 0; k < 4 && g.pf != PixelFormat::UNDEFINED; ++k) {
    Bytes b = g.file;
    bool crcs = false;
    if (r.chance(0.5)) {
      b.resize(r.below(b.size()));
      c.count("png_truncated");
    } else {
      b = damage(r, b);
      crcs = r.chance(0.4);
      if (crcs) {
        fixCrcs(b);
      }
      c.count("png_damaged");
    }
    if (claimsALot(b) && !r.chance(0.01)) {
      continue;
    }
    b.shrink_to_fit();
    if (g.dataStart > 0 && b.size() > g.dataStart && r.chance(0.02)) {
      b[g.dataStart] = 0x7f; // the chunk claims to be huge
    }
    f = dirtyFrame(r, like);
    timespec t0{}, t1{};
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
    bool accepted = decode(r, PixelFrame::make(f), b, ImageFormat::PNG);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
    double seconds = double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) * 1e-9;
    if (!claimsALot(b)) {
      c.maxi("png_milliseconds", static_cast<int64_t>(seconds * 1000));
      c.check(seconds < 1.5, "png.slow", "%s changed to %zu bytes took %g s to decode", what.c_str(), b.size(), seconds);
    }
    if (accepted && !crcs && b != g.file) {
      compare(c, "png_damaged", what + vh::sf(" changed to %zu of %zu bytes", b.size(), g.file.size()), *f, g.pf, g.w, g.h, g.pixels, g.tolerance);
      c.count("png_damaged_accepted");
    } else {
      c.count("png_refused");
    }
  }
}

// ---- JPEG

bool jpegBytes(const Image& m, int quality, bool progressive, int sampling, Bytes& out) {
  jpeg_compress_struct ci{};
  jpeg_error_mgr err{};
  ci.err = jpeg_std_error(&err);
  jpeg_create_compress(&ci);
  unsigned char* buffer = nullptr;
  unsigned long n = 0;
  jpeg_mem_dest(&ci, &buffer, &n);
  bool grey = m.pf == PixelFormat::GREY8;
  ci.image_width = m.w;
  ci.image_height = m.h;
  ci.input_components = grey ? 1 : 3;
  ci.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB;
  jpeg_set_defaults(&ci);
  jpeg_set_quality(&ci, quality, TRUE);
  if (progressive) {
    jpeg_simple_progression(&ci);
  }
  if (!grey && sampling > 0) {
    ci.comp_info[0].h_samp_factor = sampling;
    ci.comp_info[0].v_samp_factor = sampling;
  }
  jpeg_start_compress(&ci, TRUE);
  while (ci.next_scanline < ci.image_height) {
    JSAMPROW row = const_cast<uint8_t*>(m.data.data()) + size_t(m.stride) * ci.next_scanline;
    jpeg_write_scanlines(&ci, &row, 1);
  }
  jpeg_finish_compress(&ci);
  out.assign(buffer, buffer + n);
  free(buffer);
  jpeg_destroy_compress(&ci);
  return true;
}

void jpgCase(Case& c) {
  Rng& r = c.rng;
  Image m = randomImage(r, r.chance(0.5) ? PixelFormat::GREY8 : PixelFormat::RGB8);
  bool smooth = r.chance(0.6);
  uint32_t channels = m.pf == PixelFormat::GREY8 ? 1 : 3;
  if (smooth) {
    double ax = r.unit() * 2, ay = r.unit() * 2, base = r.unit() * 100;
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < m.w; ++x) {
        for (uint32_t ch = 0; ch < channels; ++ch) {
          m.data[size_t(m.stride) * y + x * channels + ch] = clip(static_cast<int>(base + 20 * ch + ax * x + ay * y));
        }
      }
    }
  }
  string what = "jpg of " + m.text();
  c.signature(what);
  Bytes file;
  uint32_t quality = 1 + r.below(100);
  bool progressive = false;
  if (r.chance(0.5)) {
    auto frame = makeFrame(c, m);
    if (r.chance(0.3)) {
      file.resize(r.below(100), 7);
    }
    bool ok = r.chance(0.5) ? frame->jpgCompress(file, quality) : r.chance(0.5) ? PixelFrame::jpgCompress(m.spec(), m.data, file, quality) : PixelFrame::jpgCompress(m.spec(), m.data.data(), file, quality);
    c.check(ok, "jpg.write", "%s not compressed", what.c_str());
    c.count("jpg_made_by_vrs");
  } else {
    progressive = r.chance(0.3);
    jpegBytes(m, static_cast<int>(quality), progressive, static_cast<int>(r.below(3)), file);
  }
  auto f = dirtyFrame(r, m);
  bool ok = false;
  if (r.chance(0.2)) {
    string path = c.file("i.jpg");
    vh::spew(path, file.data(), file.size());
    ok = PixelFrame::make(f).readJpegFrameFromFile(path);
    unlink(path.c_str());
  } else {
    ok = decode(r, PixelFrame::make(f), file, ImageFormat::JPG);
  }
  if (!c.check(ok && f->getPixelFormat() == m.pf && f->getWidth() == m.w && f->getHeight() == m.h && f->size() >= size_t(m.w) * m.h * channels, "jpg.decode", "%s (quality %u): %d %s", what.c_str(), quality, ok, f ? f->getSpec().asString().c_str() : "")) {
    return;
  }
  c.count("jpg_decoded");
  Image tight = m;
  tight.stride = m.w * channels;
  tight.data = withoutPadding(m);
  if (smooth && quality >= 90) {
    double err = 0;
    for (uint32_t y = 0; y < m.h; ++y) {
      for (uint32_t x = 0; x < tight.stride; ++x) {
        double d = double(f->rdata()[size_t(f->getStride()) * y + x]) - tight.data[size_t(tight.stride) * y + x];
        err += d * d;
      }
    }
    err /= double(tight.data.size());
    c.check(err < 400, "jpg.pixels", "%s with quality %u: mean square error of %g", what.c_str(), quality, err);
    c.count("jpg_compared");
  }
  Bytes decoded(f->getBuffer());
  PixelFrame formatOnly;
  ok = formatOnly.readJpegFrame(file, false);
  c.check(ok && formatOnly.getPixelFormat() == m.pf && formatOnly.getWidth() == m.w && formatOnly.getHeight() == m.h, "jpg.format", "%s: only reading the format gives %s", what.c_str(), formatOnly.getSpec().asString().c_str());
  if (!progressive && file.size() > 2 && file[file.size() - 1] == 0xd9) {
    Bytes b(file.begin(), file.end() - 2); // all the pixels are there
    f = dirtyFrame(r, m);
    if (c.check(decode(r, PixelFrame::make(f), b, ImageFormat::JPG), "jpg.no_end", "%s without its end marker is refused", what.c_str())) {
      compare(c, "jpg_no_end", what, *f, m.pf, m.w, m.h, decoded);
    }
    c.count("jpg_no_end");
  }
  for (int k = 0; k < 4; ++k) {
    Bytes b = file;
    bool truncated = r.chance(0.5);
    if (truncated) {
      b.resize(r.below(b.size()));
      c.count("jpg_truncated");
    } else {
      b = damage(r, b);
      c.count("jpg_damaged");
    }
    if (claimsALot(b) && !r.chance(0.01)) {
      continue;
    }
    b.shrink_to_fit();
    f = dirtyFrame(r, m);
    if (decode(r, PixelFrame::make(f), b, ImageFormat::JPG)) {
      if (truncated && !progressive) {
        compare(c, "jpg_truncated", what + vh::sf(" truncated to %zu of %zu bytes", b.size(), file.size()), *f, m.pf, m.w, m.h, decoded);
      }
    } else {
      c.count("jpg_refused");
    }
  }
}

// ---- raw images in records, and custom codecs

void rawCase(Case& c) {
  Rng& r = c.rng;
  Image m = randomImage(r, r.pick(kFormats).pf);
  string what = "record of " + m.text();
  c.signature(what);
  bool last = m.planes() == 1 && r.chance(0.3); // the last line has no padding
  Bytes data(m.data.begin(), m.data.begin() + static_cast<ptrdiff_t>(last ? m.leastSize() : m.fullSize()));
  bool lacking = r.chance(0.3);
  if (lacking) {
    data.resize(r.below(m.planes() == 1 ? m.leastSize() : m.fullSize()));
  } else if (r.chance(0.3)) {
    last = false;
    data = m.data;
    data.resize(data.size() + 1 + r.below(50));
  }
  data.shrink_to_fit();
  BufferReader reader;
  auto f = dirtyFrame(r, m);
  ImageContentBlockSpec spec = m.stride == lineBytes(m.pf, m.w) && r.chance(0.5) && (m.planes() == 1) ? ImageContentBlockSpec(m.pf, m.w, m.h) : m.spec();
  if (data.empty()) {
    return;
  }
  bool ok = false;
  int way = static_cast<int>(r.below(3));
  bool preserve = way == 2;
  if (way == 0) {
    ok = PixelFrame::make(f).readFrame(reader.init(data), ContentBlock(spec));
  } else if (way == 1) {
    ok = PixelFrame::make(f).readDiskImageData(reader.init(data), ContentBlock(spec));
  } else {
    ok = PixelFrame::make(f).readRawFrame(reader.init(data), spec, preserve);
  }
  if (lacking) {
    c.check(!ok, "raw.lacking", "%s was read from %zu bytes", what.c_str(), data.size());
    c.count("raw_refused");
    return;
  }
  if (last && !ok) {
    c.count("raw_last_refused");
    return; // may be refused
  }
  if (!c.check(ok, "raw.refused", "%s in %zu bytes was not read", what.c_str(), data.size())) {
    return;
  }
  c.count("raw_read");
  if (m.planes() == 1 && !(last && preserve)) {
    compare(c, "raw", what, *f, m.pf, m.w, m.h, withoutPadding(m));
  } else if (m.planes() > 1) {
    if (!c.check(f->getPixelFormat() == m.pf && f->getWidth() == m.w && f->getHeight() == m.h && f->getPlaneStride(0) >= m.w && f->size() >= f->getSpec().getRawImageSize(), "raw.planes", "%s was read as %s", what.c_str(), f->getSpec().asString().c_str())) {
      return;
    }
    size_t at = 0;
    for (uint32_t p = 0; p < m.planes(); ++p) {
      uint32_t s = f->getPlaneStride(p), line = p == 0 ? m.w : m.pf == PixelFormat::YUV_I420_SPLIT ? (m.w + 1) / 2 : (m.w + 1) / 2 * 2;
      uint32_t h = p == 0 ? m.h : (m.h + 1) / 2;
      for (uint32_t y = 0; y < h; ++y) {
        if (memcmp(f->rdata() + at + size_t(s) * y, m.data.data() + m.planeStart(p) + size_t(p == 0 ? m.stride : m.stride2) * y, line) != 0) {
          c.fail("raw.plane_bytes", "%s: plane %u line %u differs", what.c_str(), p, y);
          return;
        }
      }
      at += size_t(s) * h;
    }
  }
}

class XorDecoder : public DecoderI {
 public:
  int decode(const vector<uint8_t>& encoded, void* out, const ImageContentBlockSpec& spec) override {
    size_t n = spec.getRawImageSize();
    if (encoded.size() != n + 1) {
      memset(out, 0x11, n);
      return domainError(DecodeStatus::DecoderError);
    }
    auto* o = static_cast<uint8_t*>(out);
    for (size_t k = 0; k < n; ++k) {
      o[k] = encoded[k + 1] ^ encoded[0];
    }
    return 0;
  }
};

void customCase(Case& c) {
  Rng& r = c.rng;
  static bool registered = false;
  if (!registered) {
    registered = true;
    DecoderFactory::get().registerDecoderMaker([](const vector<uint8_t>&, void*, const ImageContentBlockSpec& spec) -> unique_ptr<DecoderI> {
      return spec.getImageFormat() == ImageFormat::CUSTOM_CODEC && spec.getCodecName() == "vh/xor" ? make_unique<XorDecoder>() : nullptr;
    });
  }
  Image m = randomImage(r, r.pick(kFormats).pf);
  m.stride = lineBytes(m.pf, m.w);
  m.stride2 = m.planes() == 1 ? 0 : m.pf == PixelFormat::YUV_I420_SPLIT ? (m.w + 1) / 2 : (m.w + 1) / 2 * 2;
  m.data.resize(m.fullSize());
  Bytes encoded(1, static_cast<uint8_t>(r.next()));
  for (uint8_t b : m.data) {
    encoded.push_back(b ^ encoded[0]);
  }
  bool known = r.chance(0.9), good = r.chance(0.7);
  if (!good) {
    encoded.resize(r.chance(0.5) ? r.below(encoded.size()) : encoded.size() + 1 + r.below(10));
  }
  string what = "custom codec of " + m.text();
  c.signature(what);
  uint32_t told = r.chance(0.3) ? m.stride + 1 + uint32_t(r.below(30)) : 0;
  ImageContentBlockSpec spec(ImageFormat::CUSTOM_CODEC, known ? "vh/xor" : "vh/other", 255, m.pf, m.w, m.h, told);
  ContentBlock block(spec, encoded.size());
  BufferReader reader;
  auto f = dirtyFrame(r, m);
  if (encoded.empty()) {
    return;
  }
  bool ok = r.chance(0.5) ? PixelFrame::make(f).readFrame(reader.init(encoded), block) : PixelFrame::make(f).readDiskImageData(reader.init(encoded), block) && f->decompressImage();
  if (!c.check(ok == (known && good), "custom.status", "%s known %d good %d: %d", what.c_str(), known, good, ok)) {
    return;
  }
  c.count(ok ? "custom_decoded" : "custom_refused");
  if (ok) {
    c.check(f->getImageFormat() == ImageFormat::RAW && f->getPixelFormat() == m.pf && f->getWidth() == m.w && f->getHeight() == m.h && f->getBuffer() == m.data, "custom.pixels", "%s gave other pixels", what.c_str());
  }
}

void codecCase(Case& c) {
  switch (c.rng.below(7)) {
    case 0:
    case 1:
    case 2:
      pngCase(c);
      break;
    case 3:
    case 4:
      jpgCase(c);
      break;
    case 5:
      rawCase(c);
      break;
    default:
      customCase(c);
      break;
  }
}

void colorsOnce(Case& c) {
  static bool done = false;
  if (done) {
    return;
  }
  done = true;
  // 0 is black, 0xffff is white, and thousands of colors are all distinct
  const auto& colors = PixelFrame::getGetObjectIdSegmentationColors();
  c.check(colors.size() == 65536 && colors[0].r + colors[0].g + colors[0].b == 0 && colors[65535].r + colors[65535].g + colors[65535].b == 765, "colors", "segmentation colors: no black or no white");
  set<uint32_t> seen;
  for (size_t k = 0; k < min<size_t>(colors.size(), 35935); ++k) {
    seen.insert((uint32_t(colors[k].r) << 16) | (uint32_t(colors[k].g) << 8) | colors[k].b);
  }
  c.check(seen.size() == 35935, "colors.distinct", "only %zu segmentation colors", seen.size());
  c.count("colors", static_cast<int64_t>(seen.size()));
}

void runCase(Case& c) {
  colorsOnce(c);
  if (c.mode == "convert") {
    convertCase(c);
  } else if (c.mode == "codec") {
    codecCase(c);
  } else {
    frameCase(c);
  }
}

} // namespace

VH_MAIN()
