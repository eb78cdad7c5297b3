// Recordings with record formats: metadata, images, audio and custom blocks, described by the record format, by metadata
// in the record, or by the configuration record. The generator knows what each block must be delivered as.
#pragma once
#include "vrsgen.h"

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>

namespace vg {

// the value of one field of a metadata block
struct Field {
  enum Kind { U8, U32, I64, F64, STR, VECF, ARR16, MAPI, KINDS };
  Kind kind{U8};
  std::string label;
  size_t count{}; // of an array
  bool set{true}; // a value was given
  double num{}; // scalar value
  std::string text;
  std::vector<double> nums; // vectors, arrays
  std::map<std::string, int32_t> map;
};

struct LayoutDef {
  std::vector<Field> fields; // labels and kinds
  std::unique_ptr<vrs::ManualDataLayout> layout;
  void build();
  bool fixedSize() const;
};
// set the values, and get the bytes that a record holds
Bytes layoutBytes(LayoutDef& def, const std::vector<Field>& values);
// "" if the layout that was read has the values
std::string diffLayout(vrs::DataLayout& layout, const std::vector<Field>& values);

// what an image or audio block is, field by field
struct MediaSpec {
  vrs::ImageFormat imf{};
  vrs::PixelFormat pix{};
  uint32_t w{}, h{}, stride{}, stride2{};
  std::string codec;
  uint32_t quality{255};
  double keyTs{};
  uint32_t keyIndex{};
  bool hasKey{};
  vrs::AudioFormat auf{};
  vrs::AudioSampleFormat sample{};
  uint32_t channels{}, rate{}, samples{}, frameStride{}, pairs{};
};

enum class Source { FORMAT, RECORD, CONFIG }; // where the description comes from

struct BlockDef {
  vrs::ContentType type{vrs::ContentType::EMPTY};
  std::unique_ptr<LayoutDef> layout; // DATA_LAYOUT
  Source source{Source::FORMAT}; // image, audio
  MediaSpec media; // as far as the format tells (imf/auf always)
  bool sized{}; // the format gives the size in bytes
  size_t size{};
  bool sizeFromLayout{}; // the layout just before has next_content_block_size
  bool countFromLayout{}; // and audio_sample_count
  std::string custom;
};

struct FormatDef {
  vrs::Record::Type type{};
  uint32_t ver{};
  std::vector<BlockDef> blocks;
  bool hasImageSpec{}, hasAudioSpec{}; // configuration formats: one of the layouts has the specs
};

struct Delivered { // what a player must be offered for a block
  size_t index{};
  vrs::ContentType type{};
  bool unsupported{};
  MediaSpec media;
  std::string custom;
  std::string origin; // how it is described (for reports)
  Bytes bytes;
  std::vector<Field> values; // DATA_LAYOUT
};

struct RichRec {
  Rec rec;
  std::vector<Delivered> blocks;
  size_t config{SIZE_MAX}; // the configuration record it needs, in the list of the stream
};

struct RichOptions {
  size_t maxStreams{3};
  size_t maxRecords{30};
  uint32_t maxDim{40};
  bool increasing{true};
  bool twoConfigVersions{true};
  bool media{true}; // real jpg/png/opus data is not generated: payloads are random
  bool hostileText{}; // text values, flavors, tags, codec and custom format names with any byte
};

class RichStream : public Stream {
 public:
  using Stream::Stream;
  std::vector<std::unique_ptr<FormatDef>> formats;
  std::vector<RichRec> rich; // in creation order
  void addFormats(vh::Rng& r, const RichOptions& o);
  // adds a record (configuration, state or data) with random content
  void addRecord(vh::Rng& r, const RichOptions& o, vrs::Record::Type type, double ts);

 private:
  MediaSpec configImage_, configAudio_; // as told by the last configuration record
  bool haveImage_{}, haveAudio_{};
  size_t lastConfig_{SIZE_MAX};
};

struct RichPlan {
  std::vector<std::unique_ptr<RichStream>> streams;
  std::map<std::string, std::string> tags;
};
// text with quotes, backslashes, control characters, bytes that aren't UTF-8
std::string hostileText(vh::Rng& r, size_t maxLen);
// builds the streams and their records (records are created: they are waiting in the streams' queues)
RichPlan makeRich(vh::Rng& r, const RichOptions& o);
int writeRich(RichPlan& p, const std::string& path, size_t threads = 0);

size_t rawImageSize(const MediaSpec& m); // our own arithmetic
size_t sampleSize(vrs::AudioSampleFormat f);

// Collects what is delivered, reading everything
struct Delivery {
  vrs::Record::Type type{};
  double ts{};
  uint32_t ver{};
  vrs::StreamId id;
  std::vector<Delivered> blocks; // custom, media as delivered; bytes read
  std::vector<std::string> errors;
};
std::string diffBlock(const Delivered& expected, const Delivered& got);

} // namespace vg
