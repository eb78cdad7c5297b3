// C05: storage failures. The same recording is executed with the n-th call of some kind failing (once, or from then on),
// and what the API reports is compared with what the file holds.
// WITH: vrsgen plan vio
#include "crash.h"

#include <cerrno>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;

namespace {

struct Spec {
  int kind; // vio kind, or 100: aio submission, 101: aio completion, 102: aio short write
  int64_t nth;
  bool sticky, shortWrite;
  int err;
  string str() const {
    const char* k = kind < 100 ? vio::kindName(kind) : kind == 100 ? "aio-submit" : kind == 101 ? "aio-complete" : "aio-short";
    return vh::sf("%s #%lld fails%s%s (%s)", k, (long long)nth, sticky ? " and all later ones" : "", shortWrite ? " half way" : "", strerror(err));
  }
};

// first operation of the log that was meant to be failed is not logged (except short writes): what was logged before
// the n-th call of that kind
vector<Rec> readable(const string& path, int& status, string* anomaly) {
  FileContent f = readFile(path);
  status = f.status;
  vector<Rec> v;
  for (size_t i = 0; i < f.recs.size(); i++) {
    if (f.readStatus[i] == 0) {
      v.push_back(f.recs[i]);
    } else if (anomaly) {
      *anomaly = vh::sf("record %zu of %zu (%s) can't be read: %d", i, f.recs.size(), f.recs[i].str().c_str(), f.readStatus[i]);
    }
  }
  return v;
}

} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  PlanOptions o;
  bool chunky = r.chance(0.15);
  if (chunky) {
    o.maxRecords = 30;
    o.maxSize = 300000;
    o.how = static_cast<int>(r.pick({kSplitHead, kChunked}));
  }
  bool asyncy = r.chance(0.2);
  if (asyncy) {
    o.maxSize = max<size_t>(o.maxSize, 4000);
  }
  Plan p = randomPlan(r, o);
  if (chunky) {
    p.chunkMB = 1;
  }
  if (asyncy) {
    p.engine = "aio";
    p.extras["buffer_size"] = r.pick({"512", "1024", "4096"});
    p.extras["offset_align"] = p.extras["mem_align"] = "512";
    p.extras["buffer_count"] = r.pick({"1", "2", "4"});
    p.extras["iodepth"] = r.pick({"1", "2", "4"});
    p.extras["direct"] = r.chance(0.3) ? "true" : "false";
  }
  string dir = c.file("full"), redo = c.file("redo");
  mkdir(dir.c_str(), 0777);
  mkdir(redo.c_str(), 0777);
  string path = dir + "/f.vrs";
  vio::setAio({true, 200}, 1);
  vio::begin(dir, true);
  Recording clean = execute(p, path);
  vio::aioDrain();
  vio::Log cleanLog = vio::end();
  int64_t calls[vio::kKinds];
  for (int k = 0; k < vio::kKinds; k++) {
    calls[k] = vio::calls(k);
  }
  if (!c.check(clean.status == 0, "recording-failed", "%s: %s -> %d", p.str().c_str(), clean.failedAt.c_str(), clean.status)) {
    return;
  }
  string sig;
  int runs = c.thorough ? 16 : 6;
  for (int k = 0; k < runs; k++) {
    vector<int> kinds;
    for (int kind : {vio::kOpen, vio::kWrite, vio::kSeek, vio::kTrunc, vio::kFlush, vio::kClose}) {
      if (calls[kind] > 0) {
        kinds.push_back(kind);
      }
    }
    kinds.push_back(vio::kWrite);
    if (calls[vio::kAio] > 0) {
      for (int i = 0; i < 2; i++) {
        kinds.push_back(100);
        kinds.push_back(101);
        kinds.push_back(102);
      }
    }
    Spec s{};
    s.kind = kinds[r.below(kinds.size())];
    int64_t n = s.kind >= 100 ? calls[vio::kAio] : calls[s.kind];
    if (n == 0) {
      continue;
    }
    s.nth = r.chance(0.3) ? n - 1 - static_cast<int64_t>(r.below(static_cast<uint64_t>(min<int64_t>(n, 6)))) : static_cast<int64_t>(r.below(static_cast<uint64_t>(n)));
    s.sticky = s.kind < 100 && r.chance(0.4);
    s.shortWrite = s.kind == vio::kWrite && r.chance(0.4);
    s.err = r.pick({ENOSPC, EIO, EDQUOT, EFBIG});
    vh::wipeDir(dir);
    vio::AioMode am{true, 200};
    am.err = s.err;
    if (s.kind == 100) {
      am.failSubmitNth = s.nth;
    } else if (s.kind == 101) {
      am.failCompleteNth = s.nth;
    } else if (s.kind == 102) {
      am.shortNth = s.nth;
    }
    vio::setAio(am, 1);
    vio::Fault fault;
    if (s.kind < 100) {
      fault.kind = s.kind;
      fault.nth = s.nth;
      fault.sticky = s.sticky;
      fault.shortWrite = s.shortWrite;
      fault.err = s.err;
    }
    string what = p.str() + "; " + s.str();
    c.sample(what);
    vio::begin(dir, true, fault);
    Recording rec = execute(p, path);
    vio::aioDrain();
    int64_t hits = vio::faultHits(), at = vio::faultAt();
    vio::Log log = vio::end();
    vio::setAio({true, 0}, 1);
    c.count("failures_injected", hits > 0);
    if (hits == 0) {
      c.count("not_reached");
      c.check(rec.status == 0, "failure-out-of-nowhere", "%s: %s -> %d", what.c_str(), rec.failedAt.c_str(), rec.status);
    }
    c.count(vh::sf("kind:%s", s.kind < 100 ? vio::kindName(s.kind) : s.kind == 100 ? "aio-submit" : s.kind == 101 ? "aio-complete" : "aio-short"), hits > 0);
    int status;
    string anomaly;
    vector<Rec> got = readable(path, status, &anomaly);
    sig += what + vh::sf(" %d %zu", rec.status, got.size());
    if (rec.status == 0) {
      // reported as a success: everything must be there
      c.count("reported_success", hits > 0);
      if (hits > 0) {
        c.count(vh::sf("success_despite:%s", vio::kindName(s.kind < 100 ? s.kind : vio::kAio)));
        // A chunk that can't be created is no failure: the recording goes on in the current chunk; a file
        // that can't be opened with O_DIRECT is opened without. A failed write, seek
        // or truncation can be recovered from (the index written at the end rather than in its preallocated space):
        // the contents of the file will tell. What a failed flush or close lost can't be known.
        bool tolerated = s.kind == vio::kOpen || s.kind == vio::kWrite || s.kind == vio::kSeek || s.kind == vio::kTrunc;
        c.check(tolerated, vh::sf("unreported:%s", s.kind < 100 ? vio::kindName(s.kind) : "aio"), "%s: reported as a success", what.c_str());
      }
      if (c.check(status == 0, "success-but-unreadable", "%s: open -> %d", what.c_str(), status)) {
        c.check(anomaly.empty(), "success-but-unreadable-record", "%s: %s", what.c_str(), anomaly.c_str());
        string d = diffMultiset(rec.expected, got);
        c.check(d.empty(), "success-but-data-lost", "%s: %zu of %zu records: %s", what.c_str(), got.size(), rec.expected.size(), d.c_str());
      }
      continue;
    }
    c.count("reported_failure");
    // nothing but what was handed in (when an asynchronous write fails, later ones still happen, around a hole that can
    // be in the middle of a record)
    map<string, int> all;
    for (auto& e : rec.expected) {
      all[e.str()]++;
    }
    for (auto& g : got) {
      if (s.kind < 100 && !c.check(--all[g.str()] >= 0, "alien-record-after-failure", "%s: %s", what.c_str(), g.str().c_str())) {
        break;
      }
    }
    // everything stored before the failure
    if (at < 0) {
      continue;
    }
    auto files = vio::snapshot(log, static_cast<size_t>(at), 0);
    vh::wipeDir(redo);
    for (auto& f : files) {
      vh::spew(redo + f.first.substr(dir.size()), f.second.data(), f.second.size());
    }
    int status0;
    vector<Rec> before = readable(redo + "/f.vrs", status0, nullptr);
    if (status0 == 0 && !before.empty()) {
      c.count("records_stored_before", static_cast<int64_t>(before.size()));
      c.count("failed_after_records");
      if (c.check(status == 0, "unreadable-after-failure", "%s: open -> %d, %zu records were stored before", what.c_str(), status, before.size())) {
        map<string, int> have;
        for (auto& g : got) {
          have[g.str()]++;
        }
        // An asynchronous write that failed leaves a hole: the record in front of it is given up with it.
        int spared = s.kind >= 100 ? 1 : 0;
        for (auto& b : before) {
          if (!c.check(--have[b.str()] >= 0 || spared-- > 0, "stored-record-lost", "%s: %zu stored, %zu found, missing %s", what.c_str(), before.size(), got.size(), b.str().c_str())) {
            break;
          }
        }
      }
    }
  }
  if (!sig.empty()) {
    c.signature(vh::sf("%016llx", (unsigned long long)vh::fnvs(sig)));
  }
}

VH_MAIN()
