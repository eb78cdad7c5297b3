// C04: fixing the index of a damaged file in place. Files interrupted at a crash point, cut, or damaged in the tail, are
// read without repair, repaired, read, and repaired again.
// WITH: vrsgen plan vio
#include "crash.h"

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {

map<string, Bytes> filesIn(const string& dir) {
  map<string, Bytes> m;
  for (auto& n : vh::listDir(dir)) {
    m[n] = vh::slurp(dir + "/" + n);
  }
  return m;
}

struct View {
  int status{-1};
  FileContent f;
  vector<Rec> good; // readable records
};

View look(const string& path, bool fix) {
  View v;
  RecordFileReader reader;
  v.status = reader.openFile(path, fix);
  if (v.status == 0) {
    readContent(reader, v.f);
    for (size_t i = 0; i < v.f.recs.size(); i++) {
      if (v.f.readStatus[i] == 0) {
        v.good.push_back(v.f.recs[i]);
      }
    }
  }
  return v;
}

} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  PlanOptions o;
  if (r.chance(0.05)) {
    o.maxRecords = 3000;
    o.maxSize = 30;
  }
  Plan p = randomPlan(r, o);
  if (c.number % 2000 == 7) {
    p.how = kSplitHead;
    while (p.records.size() < 110000) {
      p.records.push_back(p.records.empty() ? PlanRecord{} : p.records[r.below(min<size_t>(20, p.records.size()))]);
      p.records.back().data.resize(min<size_t>(p.records.back().data.size(), 30));
      p.records.back().direct = 0;
      p.records.back().flushAfter = false;
      p.records.back().ts = static_cast<double>(p.records.size());
    }
  }
  string dir = c.file("full"), crash = c.file("crash");
  mkdir(dir.c_str(), 0777);
  mkdir(crash.c_str(), 0777);
  string path = dir + "/f.vrs";
  vio::setAio({true, 0}, 1);
  vio::begin(dir, true);
  Recording rec = execute(p, path);
  vio::aioDrain();
  vio::Log log = vio::end();
  Layout full;
  string err = rec.status == 0 ? layoutOf(path, full) : "recording failed";
  if (!c.check(err.empty(), "recording-failed", "%s: %s", p.str().c_str(), err.c_str())) {
    return;
  }
  auto local = [&](const string& p2) { return crash + p2.substr(dir.size()); };
  size_t n = log.ops.size();
  size_t first = 0;
  for (int64_t size = 0; first < n && size < full.descriptionEnd; first++) {
    auto& op = log.ops[first];
    if ((op.kind == vio::kWrite || op.kind == vio::kAio) && log.files[static_cast<size_t>(op.file)] == full.chunks[0].first) {
      size = max(size, op.pos + static_cast<int64_t>(op.data.size()));
    }
  }
  string sig;
  int points = p.records.size() > 100000 ? 2 : 5;
  for (int k = 0; k < points; k++) {
    string what;
    map<string, Bytes> files;
    int kind = static_cast<int>(r.below(8));
    if (kind < 4) { // interrupted
      size_t at = r.chance(0.25) ? n - r.below(min<size_t>(n, 10)) : first + r.below(n - first + 1);
      size_t part = 0;
      State st = stateAt(log, at, part, r, p.engine.empty() && r.chance(0.5));
      files = st.files;
      what = "interrupted " + st.str;
    } else { // complete, then damaged
      for (auto& ch : full.chunks) {
        files[ch.first] = vh::slurp(ch.first);
      }
      if (kind == 4) {
        what = "complete";
      } else if (kind == 5) { // cut the last chunk
        auto& b = files[full.chunks.back().first];
        int64_t low = full.chunks.size() == 1 ? full.descriptionEnd : 0;
        size_t size = static_cast<size_t>(low + static_cast<int64_t>(r.below(b.size() - static_cast<size_t>(low) + 1)));
        what = vh::sf("last chunk cut from %zu to %zu bytes", b.size(), size);
        b.resize(size);
      } else if (kind == 6 && !full.records.empty()) { // index link lost and a record header damaged
        FileFormat::FileHeader fh;
        auto& head = files[full.chunks[0].first];
        memcpy(&fh, head.data(), sizeof(fh));
        if (full.chunks.size() == 1 || p.how != kSplitHead) {
          fh.indexRecordOffset = 0;
          memcpy(head.data(), &fh, sizeof(fh));
        }
        auto& pl = full.records[r.below(full.records.size())];
        auto& b = files[pl.path];
        FileFormat::RecordHeader rh;
        memcpy(&rh, b.data() + pl.begin, sizeof(rh));
        switch (r.below(4)) {
          case 0:
            rh.previousRecordSize = rh.previousRecordSize + static_cast<uint32_t>(r.pick({1, -1, 1000}));
            break;
          case 1:
            rh.recordSize = static_cast<uint32_t>(r.below(40));
            break;
          case 2:
            rh.recordType = static_cast<uint8_t>(r.pick({0, 200}));
            break;
          default:
            rh.recordSize = 0x7fffffff;
        }
        memcpy(b.data() + pl.begin, &rh, sizeof(rh));
        what = vh::sf("no index, header of record at %lld of %s damaged", (long long)pl.begin, pl.path.substr(pl.path.find_last_of('/') + 1).c_str());
        c.count("damaged_headers");
      } else { // index link lost, junk at the end
        FileFormat::FileHeader fh;
        auto& head = files[full.chunks[0].first];
        memcpy(&fh, head.data(), sizeof(fh));
        if (p.how != kSplitHead) {
          fh.indexRecordOffset = 0;
          memcpy(head.data(), &fh, sizeof(fh));
        }
        auto& b = files[full.chunks.back().first];
        Bytes junk = randomPayload(r, r.skewed(5000));
        b.insert(b.end(), junk.begin(), junk.end());
        what = vh::sf("no index, %zu bytes of junk at the end", junk.size());
      }
    }
    auto it = files.find(full.chunks[0].first);
    if (it == files.end() || static_cast<int64_t>(it->second.size()) < full.descriptionEnd) {
      continue;
    }
    vh::wipeDir(crash);
    for (auto& f : files) {
      vh::spew(local(f.first), f.second.data(), f.second.size());
    }
    what = p.str() + "; " + what;
    string target = local(path);
    auto bytes0 = filesIn(crash);
    View before = look(target, false);
    c.check(filesIn(crash) == bytes0, "read-modifies", "%s: opening without repair changed the file", what.c_str());
    if (before.status != 0) {
      c.count("unreadable_before");
      continue; // nothing could be read: C03 and C06 judge that
    }
    View fix = look(target, true);
    auto bytes1 = filesIn(crash);
    bool hadIndex = before.f.hasIndex;
    if (hadIndex) {
      c.check(bytes1 == bytes0, "valid-index-modified", "%s: the file had a valid index", what.c_str());
      c.count("had_index");
    }
    if (!c.check(fix.status == 0, "repair-open-failed", "%s: %d %s", what.c_str(), fix.status, errorCodeToMessage(fix.status).c_str())) {
      continue;
    }
    string d = diffMultiset(before.good, fix.good);
    c.check(d.empty(), "records-change-during-repair", "%s: %s", what.c_str(), d.c_str());
    View after = look(target, false);
    if (!c.check(after.status == 0, "open-after-repair-failed", "%s: %d %s", what.c_str(), after.status, errorCodeToMessage(after.status).c_str())) {
      continue;
    }
    c.check(filesIn(crash) == bytes1, "read-modifies", "%s: opening the repaired file changed it", what.c_str());
    d = diffMultiset(before.good, after.good);
    c.check(d.empty(), "records-differ-after-repair", "%s: %zu before, %zu after: %s", what.c_str(), before.good.size(), after.good.size(), d.c_str());
    c.check(after.good.size() == after.f.recs.size() || hadIndex || kind >= 6, "unreadable-records-after-repair", "%s: %zu of %zu are readable", what.c_str(), after.good.size(), after.f.recs.size());
    c.check(after.f.hasIndex || (hadIndex == false && before.good.empty()), "no-index-after-repair", "%s: %zu records", what.c_str(), before.good.size());
    for (size_t i = 1; i < after.f.recs.size(); i++) {
      if (after.f.recs[i].ts < after.f.recs[i - 1].ts) {
        c.fail("not-sorted", "%s: record %zu", what.c_str(), i);
        break;
      }
    }
    d = diffTags(before.f.tags, after.f.tags);
    c.check(d.empty(), "file-tags-differ", "%s: %s", what.c_str(), d.c_str());
    for (auto& t : before.f.streamTags) {
      auto g = after.f.streamTags.find(t.first);
      if (c.check(g != after.f.streamTags.end(), "stream-missing", "%s: %s", what.c_str(), t.first.getNumericName().c_str())) {
        d = diffTags(t.second.user, g->second.user) + diffTags(t.second.vrs, g->second.vrs);
        c.check(d.empty(), "stream-tags-differ", "%s: %s", what.c_str(), d.c_str());
      }
    }
    if (after.f.hasIndex) {
      View again = look(target, true);
      c.check(again.status == 0, "second-repair-failed", "%s: %d", what.c_str(), again.status);
      c.check(filesIn(crash) == bytes1, "second-repair-modifies", "%s", what.c_str());
      d = diffMultiset(after.good, again.good);
      c.check(d.empty(), "second-repair-records", "%s: %s", what.c_str(), d.c_str());
      c.count("second_repairs");
    }
    c.count("repaired", !hadIndex && bytes1 != bytes0);
    c.count("repaired_split_head", !hadIndex && bytes1 != bytes0 && p.how == kSplitHead);
    c.count("repaired_several_chunks", !hadIndex && bytes1 != bytes0 && files.size() > 1);
    c.count("records_kept", static_cast<int64_t>(before.good.size()));
    sig += what;
  }
  if (!sig.empty()) {
    c.signature(sig);
  }
  c.sample(sig.substr(0, 600));
}

VH_MAIN()
