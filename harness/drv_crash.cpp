// C03: a recording interrupted at any point is recoverable. The write calls of a recording are logged; every crash
// point (a prefix of what was written, per file, taking user space buffering into account) is rebuilt and opened.
// WITH: vrsgen plan vio
#include "crash.h"

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;


static void runCase(Case& c) {
  auto& r = c.rng;
  PlanOptions o;
  if (c.mode == "big") { // several MB in chunks; long indexes
    o.maxRecords = c.number % 30 == 7 ? 130000 : (r.chance(0.5) ? 9000 : 60);
    o.maxSize = o.maxRecords > 10000 ? 0 : (o.maxRecords > 100 ? 20 : 300000);
    o.how = static_cast<int>(r.pick({kSplitHead, kSplitHead, kChunked, kAsync}));
  }
  Plan p = randomPlan(r, o);
  if (o.maxRecords > 10000) {
    // the split index is written by 100000 entries
    p.how = kSplitHead;
    while (p.records.size() < 110000 + r.below(20000)) {
      p.records.push_back(p.records.empty() ? PlanRecord{} : p.records[r.below(p.records.size())]);
      p.records.back().ts = static_cast<double>(p.records.size());
    }
    for (auto& rec : p.records) {
      rec.flushAfter = rec.flushAfter && r.chance(0.001);
    }
  }
  string dir = c.file("full"), crash = c.file("crash");
  mkdir(dir.c_str(), 0777);
  mkdir(crash.c_str(), 0777);
  string path = dir + "/f.vrs";
  vio::setAio({true, 0}, 1);
  vio::begin(dir, true);
  Recording rec = execute(p, path);
  vio::aioDrain();
  vio::Log log = vio::end();
  if (!c.check(rec.status == 0, "recording-failed", "%s: %s -> %d", p.str().c_str(), rec.failedAt.c_str(), rec.status)) {
    return;
  }
  Layout full;
  string err = layoutOf(path, full);
  if (!c.check(err.empty(), "recording-unreadable", "%s: %s", p.str().c_str(), err.c_str())) {
    return;
  }
  { // the log must explain the files
    auto s = vio::snapshot(log, log.ops.size(), 0);
    for (auto& ch : full.chunks) {
      if (s[ch.first] != vh::slurp(ch.first)) {
        printf("E\tthe write log does not explain %s\n", ch.first.c_str());
        c.failNow("harness:log", "the write log does not explain %s: %zu bytes against %lld", ch.first.c_str(), s[ch.first].size(), (long long)ch.second);
      }
    }
  }
  auto local = [&](const string& p2) { return crash + p2.substr(dir.size()); };
  size_t n = log.ops.size();
  c.count("split_index_batches", p.how == kSplitHead && full.records.size() >= 100000);
  set<string> seen;
  size_t first = 0; // operation completing the description
  for (int64_t size = 0; first < n && size < full.descriptionEnd; first++) {
    auto& op = log.ops[first];
    if ((op.kind == vio::kWrite || op.kind == vio::kAio) && log.files[static_cast<size_t>(op.file)] == full.chunks[0].first) {
      size = max(size, op.pos + static_cast<int64_t>(op.data.size()));
    }
  }
  int points = c.mode == "big" ? 8 : 14;
  if (c.thorough) {
    points *= 2;
  }
  for (int k = 0; k < points; k++) {
    size_t at = k < 3 ? n - min<size_t>(n, static_cast<size_t>(k)) : (r.chance(0.3) ? n - r.below(min<size_t>(n, 12)) : first + r.below(n - first + 1));
    size_t part = 0;
    // small updates in place are not torn, data being appended can be cut anywhere
    auto appends = [&]() {
      auto s = vio::snapshot(log, at, 0);
      return log.ops[at].pos >= static_cast<int64_t>(s[log.files[static_cast<size_t>(log.ops[at].file)]].size());
    };
    if (at < n && log.ops[at].kind == vio::kWrite && log.ops[at].data.size() > 1 && r.chance(0.6) && appends()) {
      part = 1 + r.below(log.ops[at].data.size() - 1);
    }
    State st = stateAt(log, at, part, r, p.engine.empty() && r.chance(0.5));
    auto it = st.files.find(full.chunks[0].first);
    if (it == st.files.end() || static_cast<int64_t>(it->second.size()) < full.descriptionEnd) {
      c.count("too_early");
      continue; // died before the header and description were stored
    }
    vh::wipeDir(crash);
    // chunk files are found one after the other: a missing one hides the later ones (cannot happen: they are created in order)
    for (auto& f : st.files) {
      vh::spew(local(f.first), f.second.data(), f.second.size());
    }
    vector<Rec> expected;
    set<size_t> missing;
    for (auto& pl : full.records) {
      auto f = st.files.find(pl.path);
      if (f != st.files.end() && static_cast<int64_t>(f->second.size()) >= pl.end) {
        expected.push_back(full.content.recs[pl.rec]);
      } else {
        missing.insert(pl.rec);
      }
    }
    RecordFileReader reader;
    int e = reader.openFile(local(path));
    string what = p.str() + "; " + st.str;
    if (!c.check(e == 0, "open-failed", "%s: openFile -> %d %s; %zu of %zu records were stored", what.c_str(), e, errorCodeToMessage(e).c_str(), expected.size(), full.records.size())) {
      continue;
    }
    FileContent got;
    readContent(reader, got);
    bool bad = false;
    for (size_t i = 0; i < got.readStatus.size(); i++) {
      if (got.readStatus[i] != 0) {
        c.fail("unreadable-record", "%s: record %zu of %zu: %d", what.c_str(), i, got.recs.size(), got.readStatus[i]);
        bad = true;
        break;
      }
    }
    for (auto& a : got.anomalies) {
      c.fail("index-vs-record", "%s: %s", what.c_str(), a.c_str());
      bad = true;
    }
    if (!bad) {
      string d = diffMultiset(expected, got.recs);
      c.check(d.empty(), expected.size() > got.recs.size() ? "records-lost" : "records-differ", "%s: stored %zu, found %zu: %s", what.c_str(), expected.size(), got.recs.size(), d.c_str());
    }
    for (size_t i = 1; i < got.recs.size(); i++) {
      if (got.recs[i].ts < got.recs[i - 1].ts) {
        c.fail("not-sorted", "%s: record %zu", what.c_str(), i);
        break;
      }
    }
    string d = diffTags(full.content.tags, got.tags);
    c.check(d.empty(), "file-tags-differ", "%s: %s", what.c_str(), d.c_str());
    for (auto& t : full.content.streamTags) {
      auto& tags = reader.getTags(t.first); // even of streams no record of which was stored
      d = diffTags(t.second.user, tags.user) + diffTags(t.second.vrs, tags.vrs);
      c.check(d.empty(), "stream-tags-differ", "%s: %s: %s", what.c_str(), t.first.getNumericName().c_str(), d.c_str());
    }
    for (auto& e2 : expected) {
      c.check(got.streams.count(e2.id) == 1, "stream-missing", "%s: %s", what.c_str(), e2.id.getNumericName().c_str());
    }
    reader.closeFile();
    c.count("crash_points");
    c.count(got.hasIndex ? "points_with_index" : "points_reindexed");
    c.count("records_recovered", static_cast<int64_t>(got.recs.size()));
    c.count("cut_inside_a_write", part > 0);
    c.count("several_files", st.files.size() > 1);
    c.count(vh::sf("how:%d", p.how));
    if (!p.engine.empty()) {
      c.count("engine:" + p.engine);
    }
    if (!missing.empty() && !expected.empty()) {
      c.count("points_in_the_middle");
    }
    seen.insert(st.str);
  }
  if (!seen.empty()) {
    string all;
    for (auto& s : seen) {
      all += s;
    }
    c.signature(vh::sf("%s %016llx", p.str().c_str(), (unsigned long long)vh::fnvs(all)));
  }
  c.count("operations_logged", static_cast<int64_t>(n));
  c.sample(p.str() + "; e.g. cut " + (seen.empty() ? "-" : *seen.begin()));
}

VH_MAIN()
