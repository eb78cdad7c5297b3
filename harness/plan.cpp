#include "plan.h"

#include <cfloat>

using namespace std;
using namespace vrs;

namespace vg {

string Plan::str() const {
  static const char* hows[] = {"sync", "async", "split-head", "chunked"};
  size_t bytes = 0;
  for (auto& r : records) {
    bytes += r.data.size();
  }
  return vh::sf("%s %zu streams %zu records %zu bytes threads=%zu chunkMB=%zu engine=%s prealloc=%zu", hows[how], streams.size(), records.size(), bytes, threads, chunkMB, engine.empty() ? "default" : engine.c_str(), prealloc);
}

Plan randomPlan(vh::Rng& r, const PlanOptions& o) {
  Plan p;
  size_t n = 1 + r.below(o.maxStreams);
  for (size_t i = 0; i < n; i++) {
    PlanStream s;
    s.type = i > 0 && r.chance(0.4) ? p.streams.back().type : randomType(r);
    s.flavor = isARecordableClass(s.type) ? "plan/class" : (r.chance(0.4) ? randomText(r, 20) : "");
    s.tags = randomTags(r, 4);
    s.preset = randomPreset(r, false);
    s.autoConfig = r.chance(0.8);
    s.autoState = r.chance(0.8);
    s.autoTs = r.chance(0.5) ? 0 : -1;
    s.chunks = 1 + static_cast<uint32_t>(r.below(3));
    p.streams.push_back(std::move(s));
  }
  p.tags = randomTags(r, 5);
  size_t count = r.skewed(o.maxRecords);
  int flavor = o.increasing ? 0 : static_cast<int>(r.below(4));
  double last = static_cast<double>(r.range(-3, 3));
  for (size_t i = 0; i < count; i++) {
    PlanRecord rec;
    rec.stream = r.below(n);
    static const Record::Type types[] = {Record::Type::DATA, Record::Type::DATA, Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION};
    rec.type = types[r.below(5)];
    switch (flavor) {
      case 0:
        last += r.unit() + 1e-6;
        break;
      case 1:
        last += static_cast<double>(r.below(3)) * 0.5;
        break;
      case 2:
        last += r.unit() * 2 - 0.8;
        break;
      default:
        last = static_cast<double>(r.range(-2, 3));
    }
    rec.ts = last;
    if (o.extremes && !o.increasing && r.chance(0.01)) {
      rec.ts = r.pick({1e300, -1e300, -DBL_MAX, 5e-324, 0.1});
    }
    rec.ver = static_cast<uint32_t>(r.chance(0.9) ? r.below(4) : r.next());
    rec.data = randomPayload(r, randomSize(r, o.maxSize));
    rec.direct = o.direct && r.chance(0.08) && !rec.data.empty() ? 1 + r.below(rec.data.size()) : 0;
    rec.flushAfter = r.chance(0.2);
    p.records.push_back(std::move(rec));
  }
  p.how = o.how >= 0 ? static_cast<How>(o.how) : static_cast<How>(r.below(kHowCount));
  p.threads = r.chance(0.6) ? 0 : 1 + r.below(3);
  p.chunkMB = p.how == kChunked ? 1 : (p.how == kSplitHead && r.chance(0.5) ? 1 : 0);
  if (o.engines && r.chance(0.4)) {
    p.engine = r.pick({"sync", "psync", "aio"});
    p.extras["buffer_size"] = r.pick({"4096", "8192", "65536"});
    p.extras["buffer_count"] = r.pick({"1", "2", "4"});
    p.extras["iodepth"] = r.pick({"1", "2", "4"});
    p.extras["direct"] = r.chance(0.5) ? "true" : "false";
  } else if (o.engines && r.chance(0.2)) {
    p.extras["io_buffer_size"] = r.pick({"0", "512", "65536"});
  }
  if (p.how == kAsync && r.chance(0.4)) {
    p.prealloc = r.pick<size_t>({1, count, count * 3 + 10});
  }
  return p;
}

Recording execute(const Plan& p, const string& path) {
  Recording out;
  RecordFileWriter writer;
  for (auto& s : p.streams) {
    out.streams.emplace_back(new Stream(s.type, s.flavor));
    auto& st = *out.streams.back();
    for (auto& t : s.tags) {
      st.setTag(t.first, t.second);
    }
    st.setCompression(s.preset);
    st.chunks = s.chunks;
    st.autoConfig = s.autoConfig;
    st.autoState = s.autoState;
    st.autoTs = s.autoTs;
    writer.addRecordable(&st);
  }
  writer.addTags(p.tags);
  writer.setCompressionThreadPoolSize(p.threads);
  string target = path;
  if (!p.engine.empty() || !p.extras.empty()) {
    FileSpec spec;
    spec.chunks = {path};
    spec.fileHandlerName = p.engine.empty() ? "diskfile" : "asyncdiskfile";
    if (!p.engine.empty()) {
      spec.extras["ioengine"] = p.engine;
    }
    for (auto& e : p.extras) {
      spec.extras[e.first] = e.second;
    }
    target = spec.toJson();
  }
  auto fail = [&](const char* what, int e) {
    if (e != 0 && out.status == 0) {
      out.status = e;
      out.failedAt = what;
    }
    return e != 0;
  };
  auto add = [&](const PlanRecord& r) {
    out.streams[r.stream]->add(r.ts, r.type, r.ver, r.data, r.direct);
  };
  if (p.how == kSync) {
    for (auto& r : p.records) {
      add(r);
    }
    fail("writeToFile", writer.writeToFile(target));
  } else {
    if (p.prealloc > 0) {
      auto index = make_unique<deque<IndexRecord::DiskRecordInfo>>();
      for (size_t i = 0; i < p.prealloc; i++) {
        index->push_back({static_cast<double>(i) * 0.1, static_cast<uint32_t>(100 + (i * 7919) % 100), out.streams[i % p.streams.size()]->getStreamId(), Record::Type::DATA});
      }
      writer.preallocateIndex(std::move(index));
    }
    int e;
    if (p.how == kSplitHead) {
      e = writer.createChunkedFile(target, p.chunkMB);
    } else {
      e = writer.createFileAsync(target);
      if (e == 0 && p.how == kChunked) {
        writer.setMaxChunkSizeMB(p.chunkMB);
      }
    }
    if (!fail("create", e)) {
      for (auto& r : p.records) {
        add(r);
        if (r.flushAfter && fail("writeRecordsAsync", writer.writeRecordsAsync(r.ts))) {
          break; // a client would stop there
        }
      }
      fail("waitForFileClosed", writer.waitForFileClosed());
    }
  }
  for (auto& s : out.streams) {
    out.expected.insert(out.expected.end(), s->log.begin(), s->log.end());
  }
  sortPlayback(out.expected);
  return out;
}

string layoutOf(const string& path, Layout& out) {
  RecordFileReader reader;
  int e = reader.openFile(path);
  if (e != 0) {
    return vh::sf("openFile -> %d", e);
  }
  readContent(reader, out.content);
  for (auto& c : reader.getFileChunks()) {
    out.chunks.emplace_back(c.first, c.second);
  }
  vector<Bytes> bytes;
  for (auto& c : out.chunks) {
    bytes.push_back(vh::slurp(c.first));
    if (static_cast<int64_t>(bytes.back().size()) != c.second) {
      return "chunk size mismatch";
    }
  }
  FileFormat::FileHeader fh;
  FileFormat::RecordHeader rh;
  memcpy(&fh, bytes[0].data(), sizeof(fh));
  int64_t doff = fh.descriptionRecordOffset;
  memcpy(&rh, bytes[0].data() + doff, sizeof(rh));
  out.descriptionEnd = doff + rh.recordSize;
  auto& index = reader.getIndex();
  for (size_t i = 0; i < index.size(); i++) {
    int64_t off = index[i].fileOffset;
    size_t c = 0;
    while (c < out.chunks.size() && off >= out.chunks[c].second) {
      off -= out.chunks[c].second;
      c++;
    }
    if (c >= out.chunks.size() || off + static_cast<int64_t>(sizeof(rh)) > out.chunks[c].second) {
      return "record offset beyond the end";
    }
    memcpy(&rh, bytes[c].data() + off, sizeof(rh));
    int64_t end = off + rh.recordSize;
    if (end > out.chunks[c].second) {
      return vh::sf("record %zu is split over two chunks", i);
    }
    out.records.push_back({i, out.chunks[c].first, off, end});
  }
  sort(out.records.begin(), out.records.end(), [&](const Placed& a, const Placed& b) { return index[a.rec].fileOffset < index[b.rec].fileOffset; });
  return {};
}

} // namespace vg
