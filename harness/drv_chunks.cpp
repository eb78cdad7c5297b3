// C08: a file made of several chunks behaves like the concatenation of its chunks. A flat byte array model is
// compared with DiskFile after every operation; the chunk files are compared byte for byte at the end.
// WITH: vrsgen plan
#include "flat.h"
#include "plan.h"

#include <filesystem>

#include <vrs/helpers/FileMacros.h>
#include <vrs/os/Utils.h>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
using namespace flat;

// one-shot helpers and atomic files: all or nothing
void wholeFiles(Case& c) {
  Rng& r = c.rng;
  string path = c.file("whole");
  Bytes old;
  bool exists = r.chance(0.5);
  if (exists) {
    old = randomBytes(r, r.below(300));
    vh::spew(path, old.data(), old.size());
  }
  size_t size = r.chance(0.1) ? 0 : r.skewed(400000);
  string text;
  for (auto b : randomPayload(r, size)) {
    text.push_back(static_cast<char>(b));
  }
  int kind = static_cast<int>(r.below(3));
  if (kind == 0) {
    int st = DiskFile::writeTextFile(path, text);
    c.check(st == 0, "text-write", "writeTextFile of %zu bytes: %d", text.size(), st);
    c.check(vh::slurp(path) == Bytes(text.begin(), text.end()), "text-content", "writeTextFile wrote something else");
    c.check(DiskFile::readTextFile(path) == text, "text-read", "readTextFile returns something else (%zu bytes)", text.size());
    c.check(DiskFile::readTextFile(c.file("none")).empty(), "text-missing", "readTextFile of a missing file");
    c.count("text_files");
  } else if (kind == 1) {
    int st = r.chance(0.5) ? DiskFile::writeZstdFile(path, text) : DiskFile::writeZstdFile(path, text.data(), text.size());
    c.check(st == 0, "zstd-write", "writeZstdFile of %zu bytes: %d", text.size(), st);
    string back;
    vector<char> vec;
    Bytes exact(text.size() + 4, 0xA7);
    st = DiskFile::readZstdFile(path, back);
    c.check(st == 0 && back == text, "zstd-read", "readZstdFile of %zu bytes: %d, %zu bytes", text.size(), st, back.size());
    st = DiskFile::readZstdFile(path, vec);
    c.check(st == 0 && vec == vector<char>(text.begin(), text.end()), "zstd-read", "readZstdFile (vector) of %zu bytes: %d, %zu bytes", text.size(), st, vec.size());
    st = DiskFile::readZstdFile(path, exact.data(), text.size());
    c.check(st == 0 && memcmp(exact.data(), text.data(), text.size()) == 0 && exact[text.size()] == 0xA7, "zstd-read", "readZstdFile (exact) of %zu bytes: %d", text.size(), st);
    if (!text.empty()) {
      size_t other = r.chance(0.5) ? text.size() + 1 + r.below(3) : r.below(text.size());
      Bytes tooFew(other + 4, 0xA7);
      c.check(DiskFile::readZstdFile(path, tooFew.data(), other) != 0, "zstd-size", "readZstdFile accepts %zu bytes for %zu", other, text.size());
      // cut: an error
      Bytes raw = vh::slurp(path);
      raw.resize(r.below(raw.size()));
      string bad = c.file("damaged");
      vh::spew(bad, raw.data(), raw.size());
      st = DiskFile::readZstdFile(bad, back);
      c.check(st != 0 || (raw.empty() && back.empty()), "zstd-damaged", "readZstdFile accepts a cut file (%zu bytes)", raw.size());
      remove(bad.c_str());
    }
    c.count("zstd_files");
  } else {
    int how = static_cast<int>(r.below(3)); // close, destroy, abort
    {
      AtomicDiskFile f;
      int st = f.create(path);
      c.check(st == 0, "atomic-create", "create: %d", st);
      size_t at = 0;
      while (at < text.size()) {
        size_t n = min<size_t>(text.size() - at, 1 + r.below(text.size()));
        st = f.write(text.data() + at, n);
        c.check(st == 0, "atomic-write", "write: %d", st);
        at += n;
        bool there = filesystem::exists(path);
        c.check(there == exists && (!exists || vh::slurp(path) == old), "atomic-visible", "an unfinished file is visible under the final name");
      }
      if (how == 0) {
        st = f.close();
        c.check(st == 0, "atomic-close", "close: %d", st);
      } else if (how == 2) {
        f.abort();
      }
    }
    if (how == 2) {
      c.check(filesystem::exists(path) == exists && (!exists || vh::slurp(path) == old), "atomic-abort", "abort changed the destination");
    } else {
      c.check(vh::slurp(path) == Bytes(text.begin(), text.end()), "atomic-content", "the final file has other content");
    }
    size_t left = vh::listDir(c.tmp).size();
    c.check(left == (how == 2 && !exists ? 0 : 1), "atomic-leftover", "%zu files left", left);
    c.count("atomic_files");
  }
  c.check(kind == 2 || vh::listDir(c.tmp).size() == 1, "leftover-files", "%zu files left", vh::listDir(c.tmp).size());
  c.signature(vh::sf("whole %d %d", kind, static_cast<int>(text.size())));
}

// chunk files found next to the one given
void discover(Case& c) {
  Rng& r = c.rng;
  string stem = r.pick({"rec", "rec.vrs", "rec_1", "rec_0", "a_0", "_0", "rec_10", "x_00"});
  string dir = c.tmp;
  bool linked = r.chance(0.3);
  if (linked) {
    dir = c.file("target");
    filesystem::create_directory(dir);
  }
  string first = dir + "/" + stem;
  string root = stem.size() >= 2 && stem.compare(stem.size() - 2, 2, "_0") == 0 ? first.substr(0, first.size() - 1) : first + "_";
  auto touch = [&](const string& p) { vh::spew(p, "x", 1); };
  bool present = r.chance(0.95);
  if (present) {
    touch(first);
  }
  size_t n = r.chance(0.1) ? 9 + r.below(6) : r.below(4); // more chunks
  vector<string> expected{first};
  for (size_t i = 1; i <= n; i++) {
    string p = root + to_string(i);
    if (p == first) {
      break;
    }
    touch(p);
    expected.push_back(p);
  }
  size_t next = n + 1;
  // files that are no chunks of it: after a gap, or with other names; a folder
  if (r.chance(0.5)) {
    touch(root + to_string(next + 1));
  }
  if (r.chance(0.3)) {
    touch(root + to_string(next) + "x");
  }
  if (r.chance(0.3)) {
    touch(root + "0" + to_string(next));
  }
  if (r.chance(0.2)) {
    filesystem::create_directory(root + to_string(next));
  }
  string given = first;
  if (linked) {
    given = c.file("link");
    filesystem::create_symlink(r.chance(0.5) ? first : "target/" + stem, given);
    touch(given + "_1"); // next to the link: not a chunk
    if (r.chance(0.2)) {
      string second = c.file("link2");
      filesystem::create_symlink(given, second);
      // a link to a link is followed one step at least; only direct links are judged
    }
  }
  FileSpec spec;
  int how = static_cast<int>(r.below(3));
  string uri = given;
  if (how == 1) {
    FileSpec s;
    s.chunks = {given};
    uri = s.toJson();
  } else if (how == 2) {
    FileSpec s;
    s.fileHandlerName = "diskfile";
    s.chunks = {given};
    uri = s.toJson();
  }
  int st = RecordFileReader::vrsFilePathToFileSpec(uri, spec);
  if (!present) {
    c.check(st != 0, "found-missing-file", "'%s' does not exist but is found", uri.c_str());
    c.count("missing_first_chunks");
  } else {
    c.check(st == 0, "chunks-status", "'%s' is not found: %d", uri.c_str(), st);
    bool same = spec.chunks.size() == expected.size();
    for (size_t i = 0; same && i < expected.size(); i++) {
      error_code e;
      same = filesystem::equivalent(spec.chunks[i], expected[i], e);
    }
    string got;
    for (auto& s : spec.chunks) {
      got += " " + s;
    }
    c.check(same, "chunks-found", "for '%s' with %zu chunks, found %zu:%s", uri.c_str(), expected.size(), spec.chunks.size(), got.c_str());
    c.count("chunk_sets_found");
    c.maxi("max_chunks_found", static_cast<int64_t>(expected.size()));
  }
  c.signature(vh::sf("discover %s %zu %d %d", stem.c_str(), n, linked, how));
}

// a recording cut at any place into chunks reads like the original
void cutRecording(Case& c) {
  Rng& r = c.rng;
  PlanOptions o;
  o.how = r.chance(0.5) ? kSync : kAsync;
  o.engines = false;
  o.maxRecords = 25;
  Plan p = randomPlan(r, o);
  string path = c.file("r.vrs");
  auto rec = execute(p, path);
  if (rec.status != 0) {
    c.failNow("record", "recording failed: %d", rec.status);
  }
  auto whole = readFile(path);
  Bytes raw = vh::slurp(path);
  bool standard = r.chance(0.5);
  Layout layout;
  string problem = layoutOf(path, layout);
  if (!problem.empty()) {
    c.failNow("layout", "%s", problem.c_str());
  }
  set<size_t> cuts;
  size_t n = 1 + r.below(6);
  for (size_t i = 0; i < n; i++) {
    if (!layout.records.empty() && r.chance(0.5)) {
      auto& k = r.pick(layout.records);
      cuts.insert(static_cast<size_t>(r.chance(0.5) ? k.begin : k.end));
    } else {
      cuts.insert(r.below(raw.size() + 1));
    }
  }
  cuts.insert(raw.size());
  FileSpec spec;
  size_t from = 0;
  for (size_t to : cuts) {
    string name = c.file(spec.chunks.empty() ? string("cut") : vh::sf("cut_%zu", spec.chunks.size()));
    vh::spew(name, raw.data() + from, to - from);
    spec.chunks.push_back(name);
    from = to;
  }
  remove(path.c_str());
  string target = standard ? spec.chunks[0] : spec.toJson();
  auto cut = readFile(target);
  string where2;
  for (size_t t : cuts) {
    where2 += vh::sf(" %zu", t);
  }
  c.check(cut.status == whole.status, "cut-open", "cut at%s: status %d instead of %d", where2.c_str(), cut.status, whole.status);
  string d = diffOrdered(whole.recs, cut.recs);
  c.check(d.empty() && cut.readStatus == whole.readStatus, "cut-records", "cut at%s: %s", where2.c_str(), d.c_str());
  c.check(cut.tags == whole.tags && cut.streams == whole.streams && cut.hasIndex == whole.hasIndex, "cut-tags", "cut at%s: other tags or streams", where2.c_str());
  c.count("recordings_cut");
  c.count("cuts", static_cast<int64_t>(cuts.size() - 1));
  c.signature(vh::sf("cut %s", where2.c_str()));
}

void runCase(Case& c) {
  double x = c.rng.unit();
  if (x < 0.35) {
    readOnly<DiskFile>(c, {});
  } else if (x < 0.6) {
    update<DiskFile>(c, {});
  } else if (x < 0.75) {
    FileSpec::Extras extras;
    if (c.rng.chance(0.3)) {
      extras["io_buffer_size"] = c.rng.pick({"0", "1", "17", "4096", "100000"});
    }
    create<DiskFile>(c, extras);
  } else if (x < 0.83) {
    wholeFiles(c);
  } else if (x < 0.92) {
    discover(c);
  } else {
    cutRecording(c);
  }
}
} // namespace

VH_MAIN()
