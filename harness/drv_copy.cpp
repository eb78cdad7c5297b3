// C15: copies and merges hold exactly the selected records and the tags of their sources, which stay untouched.
// Mode "": copies and merges of sound sources. "faults": failing storage or damaged sources. "rich": record filters that
// rewrite records block by block.
// USES: core utils
// WITH: vrsgen plan rich vio
#include "plan.h"
#include "rich.h"
#include "select.h"
#include "vio.h"

#include <cerrno>
#include <climits>
#include <list>

#include <tools/vrs/VrsCommand.h>

#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/cli/MakeZeroFilterCopier.h>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
struct Source {
  string path;
  unique_ptr<RecordFileReader> reader{new RecordFileReader}; // our own
  FileContent content;
  Infos infos;
};

Source makeSource(Case& c, const Plan& p, const string& path) {
  Source s;
  s.path = path;
  Recording rec = execute(p, path);
  if (rec.status != 0) {
    c.failNow("setup", "recording -> %d at %s", rec.status, rec.failedAt.c_str());
  }
  if (s.reader->openFile(path) != 0) {
    c.failNow("setup", "can't open the recording");
  }
  readContent(*s.reader, s.content);
  s.infos = infosOf(*s.reader);
  return s;
}

// what a stream option names, in a given file
set<StreamId> resolve(const string& text, const RecordFileReader& reader) {
  set<StreamId> out;
  size_t n = 0;
  while (n < text.size() && isdigit(static_cast<unsigned char>(text[n]))) {
    n++;
  }
  unsigned type = static_cast<unsigned>(strtoul(text.c_str(), nullptr, 10));
  vector<StreamId> same;
  for (auto& id : reader.getStreams()) {
    if (static_cast<unsigned>(id.getTypeId()) == type) {
      same.push_back(id);
    }
  }
  string rest = text.substr(n);
  if (rest.empty() || rest == "-") {
    out.insert(same.begin(), same.end());
  } else if (rest[0] == '+') {
    size_t k = strtoul(rest.c_str() + 1, nullptr, 10);
    if (k >= 1 && k <= same.size()) {
      out.insert(same[k - 1]);
    }
  } else {
    bool number = rest.find_first_not_of("0123456789", 1) == string::npos;
    for (auto& id : same) {
      if (number ? id.getInstanceId() == strtoul(rest.c_str() + 1, nullptr, 10) : reader.getFlavor(id) == rest.substr(1)) {
        out.insert(id);
      }
    }
  }
  return out;
}

struct OutStream {
  RecordableTypeId type{};
  vector<pair<size_t, StreamId>> from; // file, stream
};

using Tags = map<string, string>;

// tags put together: the first value of each name counts, the other ones are kept under another name.
string diffMergedTags(const vector<const Tags*>& sources, const Tags& overrides, const Tags& got, bool exact) {
  Tags want = overrides;
  set<string> free; // names that an earlier file's value of a shorter name might have been given
  for (size_t k = 0; k < sources.size(); k++) {
    for (auto& t : *sources[k]) {
      if (want.insert(t).second) {
        for (size_t m = t.first.find("_merged"); m != string::npos; m = t.first.find("_merged", m + 1)) {
          size_t with = 0;
          for (size_t j = 0; j < k; j++) {
            with += sources[j]->count(t.first.substr(0, m));
          }
          if (with > 1) {
            free.insert(t.first);
          }
        }
      }
    }
  }
  auto isKept = [&](const string& name, const string& value) {
    for (auto& o : overrides) {
      if (o.first.rfind(name, 0) == 0) {
        return true; // replaced
      }
    }
    for (auto& g : got) {
      if (g.second == value && (g.first == name || g.first.rfind(name + "_merged", 0) == 0)) {
        return true;
      }
    }
    return false;
  };
  Tags have = got;
  for (auto& t : want) {
    auto it = have.find(t.first);
    if (it == have.end()) {
      return "tag '" + vh::printable(t.first) + "' is missing";
    }
    if (it->second != t.second) {
      if (free.count(t.first) != 0 && overrides.count(t.first) == 0 && isKept(t.first, t.second)) {
        continue;
      }
      return "tag '" + vh::printable(t.first) + "' is '" + vh::printable(it->second) + "' instead of '" + vh::printable(t.second) + "'";
    }
    have.erase(it);
  }
  for (auto& t : have) {
    bool ok = false;
    for (size_t m = t.first.find("_merged"); !exact && m != string::npos; m = t.first.find("_merged", m + 1)) {
      for (auto* s : sources) {
        auto it = s->find(t.first.substr(0, m));
        ok = ok || (it != s->end() && it->second == t.second);
      }
    }
    if (!ok) {
      return "unexpected tag '" + vh::printable(t.first) + "' = '" + vh::printable(t.second) + "'";
    }
  }
  for (size_t k = 0; k < sources.size() && !exact; k++) {
    for (auto& t : *sources[k]) {
      if (!isKept(t.first, t.second)) {
        return "the value '" + vh::printable(t.second) + "' of tag '" + vh::printable(t.first) + "' is lost";
      }
    }
  }
  return {};
}

map<string, uint64_t> fileHashes(const string& dir) {
  map<string, uint64_t> out;
  for (auto& name : vh::listDir(dir)) {
    auto d = vh::slurp(dir + "/" + name);
    out[name] = vh::fnv(d.data(), d.size());
  }
  return out;
}

bool runTool(Case& c, cli::VrsCommand& cmd, const char* command, const vector<string>& files, const vector<string>& args, int& status) {
  if (!cmd.parseCommand("vrs", command)) {
    c.failNow("option-refused", "command %s", command);
  }
  vector<string> copy{"vrs", command};
  for (auto& f : files) {
    copy.push_back(f);
  }
  copy.insert(copy.end(), args.begin(), args.end());
  vector<char*> argv;
  for (auto& a : copy) {
    argv.push_back(a.data());
  }
  int argc = static_cast<int>(argv.size());
  for (int n = 2; n < argc; n++) {
    int error = 0;
    string arg = argv[n];
    bool known = cmd.parseArgument("vrs", n, argc, argv.data(), error);
    if (error != 0 || (!known && !cmd.processUnrecognizedArgument("vrs", arg))) {
      c.failNow("option-refused", "option '%s' is refused", arg.c_str());
    }
  }
  if (!cmd.openVrsFile()) {
    status = -1;
    return false;
  }
  status = cmd.runCommands();
  return true;
}

const pair<const char*, CompressionPreset> kPresets[] = {{"none", CompressionPreset::None}, {"fast", CompressionPreset::Lz4Fast}, {"tight", CompressionPreset::Lz4Tight}, {"zfast", CompressionPreset::ZstdFaster}, {"zlight", CompressionPreset::ZstdLight}, {"zmedium", CompressionPreset::ZstdMedium}, {"zsdefault", CompressionPreset::ZstdMedium}, {"default", CompressionPreset::Default}};

void copyCase(Case& c) {
  auto& r = c.rng;
  string srcDir = c.file("src"), outDir = c.file("out");
  mkdir(srcDir.c_str(), 0777);
  mkdir(outDir.c_str(), 0777);
  size_t nFiles = r.chance(0.5) ? 1 : 2 + r.below(2);
  bool big = r.chance(0.07);
  bool grid = r.chance(0.6);
  PlanOptions o;
  o.maxStreams = 4;
  o.maxRecords = 50;
  o.maxSize = 400;
  if (big) {
    o.maxRecords = 25;
    o.maxSize = 2000000;
  }
  o.engines = false;
  o.extremes = r.chance(0.1);
  vector<Plan> plans;
  double base = r.pick({0.0, -2.0, 1000.0});
  for (size_t k = 0; k < nFiles; k++) {
    Plan p;
    if (k > 0 && r.chance(0.35)) { // recordings that overlap
      p = plans[r.below(k)];
      for (size_t i = p.records.size(); i-- > 0;) {
        if (r.chance(0.3)) {
          p.records.erase(p.records.begin() + static_cast<ssize_t>(i));
        }
      }
      p.how = kSync;
      if (r.chance(0.5)) {
        p.tags = randomTags(r, 4);
      }
    } else {
      p = randomPlan(r, o);
      if (k > 0 && r.chance(0.7)) { // of the same kinds
        for (auto& s : p.streams) {
          auto& like = r.pick(plans[0].streams);
          s.type = like.type;
          s.flavor = like.flavor;
        }
      }
      if (k > 0 && r.chance(0.5)) { // the same tags, with other values
        for (auto& t : plans[0].tags) {
          if (r.chance(0.5)) {
            p.tags[t.first] = r.chance(0.3) ? t.second : randomText(r, 10);
          }
        }
        for (auto& t : plans[0].streams[0].tags) {
          p.streams[0].tags[t.first] = r.chance(0.3) ? t.second : randomText(r, 10);
        }
        // the names merged tags get
        for (auto* tags : {&p.tags, &p.streams[0].tags, &plans[0].tags, &plans[0].streams[0].tags}) {
          if (!tags->empty() && r.chance(0.3)) {
            auto it = tags->begin();
            advance(it, r.below(tags->size()));
            (*tags)[it->first + r.pick({"_merged", "_merged", "_merged-1", "_merged_merged"})] = randomText(r, 10);
          }
        }
      }
      if (grid) {
        uint64_t span = r.pick({16, 64, 400});
        for (auto& rec : p.records) {
          rec.ts = base + static_cast<double>(r.below(span)) / 16;
          rec.flushAfter = false;
        }
        if (p.how == kAsync) {
          p.how = kSync;
        }
        for (auto& st : p.streams) {
          st.autoTs = base;
        }
      }
      for (auto& s : p.streams) {
        if (s.tags.empty() && r.chance(0.5)) {
          s.tags["side"] = r.pick({"left", "right"});
        }
      }
    }
    plans.push_back(move(p));
  }
  vector<Source> src;
  for (size_t k = 0; k < nFiles; k++) {
    src.push_back(makeSource(c, plans[k], vh::sf("%s/s%zu.vrs", srcDir.c_str(), k)));
  }
  auto before = fileHashes(srcDir);
  SelectionOptions so;
  so.grid = grid;
  so.decimation = nFiles == 1;
  string sig;
  for (size_t turn = 0, turns = 1 + r.below(3); turn < turns; turn++) {
    vh::wipeDir(outDir);
    Selection s;
    if (r.chance(0.75)) {
      s = randomSelection(r, *src[0].reader, so);
    }
    bool merge = r.chance(0.6);
    // what must come out
    vector<set<StreamId>> streams(nFiles);
    bool any = false;
    double first = 0, last = 0;
    for (size_t k = 0; k < nFiles; k++) {
      auto choices = s.streams;
      for (auto& ch : choices) {
        ch.ids = resolve(ch.text, *src[k].reader);
      }
      streams[k] = selectStreams(choices, src[k].reader->getStreams());
      dataRange(src[k].infos, streams[k], any, first, last);
    }
    vector<Selected> want;
    bool judged = true;
    for (size_t k = 0; k < nFiles; k++) {
      Selection sk = s;
      for (auto& ch : sk.streams) {
        ch.ids = resolve(ch.text, *src[k].reader);
      }
      want.push_back(select(src[k].infos, src[k].reader->getStreams(), sk, any, first, last));
      judged = judged && want.back().judged;
    }
    vector<OutStream> outs;
    for (size_t k = 0; k < nFiles; k++) {
      map<RecordableTypeId, size_t> nth;
      for (auto& id : streams[k]) {
        size_t n = nth[id.getTypeId()]++;
        OutStream* found = nullptr;
        if (merge && k > 0) {
          for (auto& os : outs) {
            if (os.type == id.getTypeId() && n-- == 0) {
              found = &os;
              break;
            }
          }
        }
        if (found) {
          found->from.emplace_back(k, id);
          c.count("merged_streams");
        } else {
          outs.push_back({id.getTypeId(), {{k, id}}});
        }
      }
    }
    // ids they'll get
    map<RecordableTypeId, uint16_t> instances;
    vector<StreamId> outIds;
    for (auto& os : outs) {
      outIds.emplace_back(os.type, ++instances[os.type]);
    }
    Tags fileOverride;
    map<StreamId, Tags> streamOverride;
    vector<string> args;
    if (r.chance(0.25)) {
      fileOverride["added"] = "a value";
      if (!src[0].content.tags.empty() && r.chance(0.5)) {
        auto& n = src[0].content.tags.begin()->first;
        if (!n.empty() && n.find('\0') == string::npos) {
          fileOverride[n] = "replaced";
        }
      }
      if (!outIds.empty() && r.chance(0.7)) {
        streamOverride[r.pick(outIds)]["side"] = "changed";
      }
      c.count("tag_overrides");
    }
    auto preset = kPresets[r.below(8)];
    unsigned threads = r.chance(0.5) ? static_cast<unsigned>(r.below(4)) : UINT_MAX;
    size_t chunkMB = big || r.chance(0.3) ? 1 : 0;
    bool tool = s.canBeArgs() && r.chance(0.5);
    string target = outDir + "/out.vrs";
    int status = 0;
    uint32_t copied = 0;
    string what = vh::sf("%s of %zu files (%s%s), %s, threads=%d chunkMB=%zu", merge ? "merge" : "copy", nFiles, s.str().c_str(), "", preset.first, static_cast<int>(threads), chunkMB);
    if (tool) {
      args = s.args(&r);
      vector<string> more{"--to", target};
      if (r.chance(0.9)) {
        more.push_back("--no-progress");
      } else {
        c.count("with_progress");
      }
      more.push_back(vh::sf("--compression=%s", preset.first));
      if (threads != UINT_MAX) {
        more.insert(more.end(), {"--mt", to_string(threads)});
      }
      if (chunkMB > 0) {
        more.insert(more.end(), {"--chunk-size", r.pick({"1", "1M", "1m"})});
      }
      for (auto& t : fileOverride) {
        more.insert(more.end(), {"--file-tag", t.first, t.second});
      }
      for (auto& st : streamOverride) {
        for (auto& t : st.second) {
          more.insert(more.end(), {"--stream-tag", st.first.getNumericName(), t.first, t.second});
        }
      }
      if (r.chance(0.5)) {
        args.insert(args.begin(), more.begin(), more.end());
      } else {
        args.insert(args.end(), more.begin(), more.end());
      }
      cli::VrsCommand cmd;
      vector<string> files;
      for (auto& f : src) {
        files.push_back(f.path);
      }
      TemporaryRecordableInstanceIdsResetter reset; // as in a process of its own
      runTool(c, cmd, merge ? "merge" : "copy", files, args, status);
      copied = cmd.copyOptions.outRecordCopiedCount;
      c.count("by_the_tool");
    } else {
      CopyOptions given(false);
      given.setCompressionPreset(preset.second);
      given.compressionPoolSize = threads;
      given.maxChunkSizeMB = chunkMB;
      given.mergeStreams = merge;
      given.graceWindow = r.chance(0.3) ? r.unit() * 3 : 0;
      given.preallocateIndex = r.chance(0.6);
      given.miscParams["a"] = "b";
      if (!fileOverride.empty() || !streamOverride.empty()) {
        given.getTagOverrider().fileTags = fileOverride;
        given.getTagOverrider().streamTags = streamOverride;
      }
      what += vh::sf(" preallocate=%d", given.preallocateIndex);
      // options can be copied
      CopyOptions duplicate(given), assigned;
      assigned = given;
      for (auto* d : {&duplicate, &assigned}) {
        c.check(d->getCompression() == given.getCompression() && d->preallocateIndex == given.preallocateIndex && d->miscParams == given.miscParams && d->mergeStreams == merge && d->maxChunkSizeMB == chunkMB && d->compressionPoolSize == threads && d->graceWindow == given.graceWindow && !d->showProgress,
            "options", "a copy of the options has other values");
      }
      const CopyOptions& options = r.chance(0.5) ? given : r.chance(0.5) ? duplicate : assigned;
      list<FilteredFileReader> readers;
      for (auto& f : src) {
        readers.emplace_back();
        auto& fr = readers.back();
        fr.setSource(f.path);
        RecordFilterParams params;
        for (auto& st : s.streams) {
          st.add ? params.includeStream(st.text) : params.excludeStream(st.text);
        }
        for (auto& t : s.types) {
          t.add ? params.includeType(t.text) : params.excludeType(t.text);
        }
        if (s.hasMin) {
          fr.setMinTime(s.minKind == Selection::kFromLast ? -s.min : s.min, s.minKind != Selection::kAbsolute);
        }
        if (s.around) {
          fr.filter.maxTime = s.max;
          fr.filter.aroundTime = true;
        } else if (s.hasMax) {
          fr.setMaxTime(s.maxKind == Selection::kFromLast ? -s.max : s.max, s.maxKind != Selection::kAbsolute);
        }
        fr.firstRecordsOnly = s.first;
        if (fr.openFile(params) != 0) {
          c.failNow("open-failed", "%s", f.path.c_str());
        }
        if (!s.intervals.empty() || s.bucket > 0) {
          DefaultDecimator::Params d;
          for (auto& i : s.intervals) {
            d.decimationIntervals.emplace_back(i.first.text, i.second);
          }
          d.bucketInterval = s.bucket;
          d.bucketMaxTimestampDelta = s.delta;
          d.decimate(fr);
        }
      }
      TemporaryRecordableInstanceIdsResetter reset;
      if (nFiles == 1 && r.chance(0.8)) {
        status = filterCopy(readers.front(), target, options);
      } else {
        vector<FilteredFileReader*> others;
        for (auto it = ++readers.begin(); it != readers.end(); ++it) {
          others.push_back(&*it);
        }
        status = filterMerge(readers.front(), others, target, options);
      }
      copied = options.outRecordCopiedCount;
    }
    c.count(nFiles == 1 ? "copies" : merge ? "merges" : "copies_of_several");
    c.check(fileHashes(srcDir) == before, "source-modified", "%s: a source has changed", what.c_str());
    if (!c.check(status == 0, "failed", "%s -> %d", what.c_str(), status)) {
      continue;
    }
    FileContent got = readFile(target);
    if (!c.check(got.status == 0, "unreadable", "%s: the copy can't be opened: %d", what.c_str(), got.status)) {
      continue;
    }
    c.check(got.anomalies.empty(), "unreadable", "%s: %s", what.c_str(), got.anomalies.empty() ? "" : got.anomalies[0].c_str());
    if (!judged) {
      continue;
    }
    if (vh::listDir(outDir).size() > 1) {
      c.count("outputs_in_chunks");
    }
    // streams
    set<StreamId> wantIds(outIds.begin(), outIds.end());
    if (!c.check(got.streams == wantIds, "streams", "%s: %zu streams instead of %zu, or others", what.c_str(), got.streams.size(), wantIds.size())) {
      continue;
    }
    for (size_t i = 0; i < outs.size(); i++) {
      vector<const Tags*> user, priv;
      for (auto& f : outs[i].from) {
        user.push_back(&src[f.first].content.streamTags[f.second].user);
        priv.push_back(&src[f.first].content.streamTags[f.second].vrs);
      }
      auto& t = got.streamTags[outIds[i]];
      string d = diffMergedTags(user, streamOverride[outIds[i]], t.user, user.size() == 1);
      c.check(d.empty(), "stream-tags", "%s: %s: %s", what.c_str(), outIds[i].getNumericName().c_str(), d.c_str());
      d = diffMergedTags(priv, {}, t.vrs, true);
      c.check(d.empty(), "stream-private-tags", "%s: %s: %s", what.c_str(), outIds[i].getNumericName().c_str(), d.c_str());
    }
    {
      vector<const Tags*> user;
      for (auto& f : src) {
        user.push_back(&f.content.tags);
      }
      string d = diffMergedTags(user, fileOverride, got.tags, nFiles == 1);
      c.check(d.empty(), "file-tags", "%s: %s", what.c_str(), d.c_str());
    }
    // records
    double t = -INFINITY;
    for (auto& g : got.recs) {
      if (!c.check(g.ts >= t, "order", "%s: %s comes after ts=%.17g", what.c_str(), g.str().c_str(), t)) {
        break;
      }
      t = g.ts;
    }
    map<StreamId, vector<Rec>> byStream;
    for (auto& g : got.recs) {
      byStream[g.id].push_back(g);
    }
    size_t total = 0;
    for (size_t i = 0; i < outs.size(); i++) {
      StreamId id = outIds[i];
      for (Record::Type type : {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA}) {
        // by file, in order
        vector<vector<Rec>> lists;
        vector<vector<Rec>> oneOf;
        for (auto& f : outs[i].from) {
          auto& w = want[f.first];
          auto& content = src[f.first].content;
          vector<Rec> list;
          auto add = [&](size_t k) {
            auto& rec = content.recs[k];
            if (rec.id == f.second && rec.type == type) {
              list.push_back(rec);
              list.back().id = id;
            }
          };
          for (size_t k : w.preroll) {
            add(k);
          }
          for (size_t k : w.main) {
            add(k);
          }
          for (auto& g : w.oneOf) {
            vector<Rec> group;
            swap(group, list);
            for (size_t k : g) {
              add(k);
            }
            swap(group, list);
            if (!group.empty()) {
              oneOf.push_back(group);
            }
          }
          lists.push_back(list);
        }
        vector<Rec> have;
        for (auto& g : byStream[id]) {
          if (g.type == type) {
            have.push_back(g);
          }
        }
        // records before the start are optional when nothing follows
        if (have.empty() && oneOf.empty()) {
          bool optional = true;
          for (size_t k = 0; k < lists.size(); k++) {
            optional = optional && (lists[k].empty() || want[outs[i].from[k].first].prerollOptional);
          }
          if (optional) {
            continue;
          }
        }
        total += have.size();
        if (!oneOf.empty()) { // one of each group, in any order
          vector<Rec> left = have;
          size_t missing = 0;
          for (auto& g : oneOf) {
            auto it = find_first_of(left.begin(), left.end(), g.begin(), g.end());
            if (it == left.end()) {
              missing++;
            } else {
              left.erase(it);
            }
          }
          c.check(missing == 0 && left.empty(), "records", "%s: %s: %zu records closest to a bucket missing, %zu unexpected", what.c_str(), id.getNumericName().c_str(), missing, left.size());
          continue;
        }
        // at each time, the records of one of the files
        size_t at = 0;
        vector<size_t> cursor(lists.size());
        vector<bool> dropped(lists.size());
        string problem;
        size_t duplicates = 0;
        while (true) {
          double ts = INFINITY;
          for (size_t k = 0; k < lists.size(); k++) {
            if (cursor[k] < lists[k].size()) {
              ts = min(ts, lists[k][cursor[k]].ts);
            }
          }
          if (ts == INFINITY) {
            break;
          }
          bool ok = false, optional = false;
          size_t advance = 0, sources = 0;
          for (size_t k = 0; k < lists.size(); k++) {
            size_t n = 0;
            while (cursor[k] + n < lists[k].size() && lists[k][cursor[k] + n].ts == ts) {
              n++;
            }
            if (n > 0) {
              sources++;
              optional = optional || want[outs[i].from[k].first].prerollOptional;
              bool same = at + n <= have.size();
              for (size_t j = 0; same && j < n; j++) {
                same = have[at + j] == lists[k][cursor[k] + j];
              }
              if (same && n > advance) {
                advance = n;
              }
              ok = ok || same;
            }
            cursor[k] += n;
          }
          if (sources > 1) {
            duplicates++;
          }
          if (!ok && !optional) {
            problem = vh::sf("at %.17g, the records found aren't those of one source (%zu have some); next found: %s", ts, sources, at < have.size() ? have[at].str().c_str() : "none");
            break;
          }
          at += advance;
        }
        if (problem.empty() && at < have.size()) {
          problem = "unexpected " + have[at].str();
        }
        c.count("times_in_several_sources", static_cast<int64_t>(duplicates));
        c.check(problem.empty(), "records", "%s: %s %s: %s", what.c_str(), id.getNumericName().c_str(), toString(type).c_str(), problem.c_str());
      }
    }
    // equal times in one source: in its order
    if (nFiles == 1 && s.bucket == 0) {
      vector<Rec> expected;
      map<StreamId, StreamId> ids;
      for (size_t i = 0; i < outs.size(); i++) {
        ids[outs[i].from[0].second] = outIds[i];
      }
      for (auto* list : {&want[0].preroll, &want[0].main}) {
        for (size_t k : *list) {
          expected.push_back(src[0].content.recs[k]);
          expected.back().id = ids[expected.back().id];
        }
      }
      if (!(want[0].prerollOptional && got.recs.empty())) {
        string d = diffOrdered(expected, got.recs);
        c.check(d.empty(), "records", "%s: %s", what.c_str(), d.c_str());
      }
      c.count("copies_compared");
    }
    c.check(copied == got.recs.size(), "count", "%s: %u records copied, the file has %zu", what.c_str(), copied, got.recs.size());
    c.count("records", static_cast<int64_t>(got.recs.size()));
    if (s.plain()) {
      c.count("complete_copies");
    }
    if (s.bucket > 0 || !s.intervals.empty()) {
      c.count("decimated_copies");
    }
    if (got.hasIndex) {
      c.count("with_index");
    }
    sig += vh::sf("%zu/%zu,", got.recs.size(), outs.size());
  }
  // a target that is a source
  if (r.chance(0.1)) {
    size_t k = r.below(nFiles);
    string target = src[k].path;
    if (r.chance(0.4)) {
      target = outDir + "/link.vrs";
      if (symlink(src[k].path.c_str(), target.c_str()) != 0) {
        target = src[k].path;
      }
    } else if (r.chance(0.4)) {
      target = srcDir + "/../src/" + vh::sf("s%zu.vrs", k);
    }
    cli::VrsCommand cmd;
    vector<string> files;
    for (auto& f : src) {
      files.push_back(f.path);
    }
    int status = 0;
    runTool(c, cmd, "copy", files, {"--to", target, "--no-progress"}, status);
    c.check(fileHashes(srcDir) == before, "source-overwritten", "copying %zu files onto source %zu -> %d, and the source is changed", nFiles, k, status);
    c.count("onto_a_source");
  }
  c.signature(sig);
}

// records of the source that can be read, others
void readability(RecordFileReader& reader, vector<Rec>& good, size_t& bad) {
  bad = 0;
  for (auto& i : reader.getIndex()) {
    Rec rec;
    string anomaly;
    if (readOne(reader, i, rec, &anomaly) == 0 && anomaly.empty()) {
      good.push_back(move(rec));
    } else {
      bad++;
    }
  }
}

void faultCase(Case& c) {
  auto& r = c.rng;
  string srcDir = c.file("src"), outDir = c.file("out");
  mkdir(srcDir.c_str(), 0777);
  mkdir(outDir.c_str(), 0777);
  PlanOptions o;
  o.maxStreams = 3;
  o.maxRecords = 40;
  o.maxSize = r.chance(0.1) ? 60000 : 800;
  o.engines = false;
  o.extremes = false;
  size_t nFiles = r.chance(0.7) ? 1 : 2;
  vector<string> paths;
  bool damage = r.chance(0.5);
  for (size_t k = 0; k < nFiles; k++) {
    Plan p = randomPlan(r, o);
    if (damage) { // no chunks
      p.how = r.chance(0.7) ? kSync : kAsync;
      p.chunkMB = 0;
    }
    paths.push_back(vh::sf("%s/s%zu.vrs", srcDir.c_str(), k));
    Recording rec = execute(p, paths.back());
    if (rec.status != 0) {
      c.failNow("setup", "recording -> %d at %s", rec.status, rec.failedAt.c_str());
    }
  }
  if (damage) {
    Layout lay;
    string e = layoutOf(paths[0], lay);
    auto bytes = vh::slurp(paths[0]);
    if (e.empty() && lay.chunks.size() == 1 && !lay.records.empty()) {
      for (size_t n = 1 + r.below(2); n > 0; n--) {
        auto& p = r.pick(lay.records);
        auto body = p.begin + 32;
        switch (r.below(4)) {
          case 0: // the file ends early
            bytes.resize(static_cast<size_t>(p.begin + r.range(0, p.end - p.begin)));
            break;
          case 1: // in the header
            bytes[static_cast<size_t>(min<int64_t>(p.begin + r.range(0, 31), static_cast<int64_t>(bytes.size()) - 1))] ^= static_cast<uint8_t>(1 + r.below(255));
            break;
          default: // in the payload
            if (p.end > body) {
              for (size_t m = 1 + r.below(20); m > 0; m--) {
                bytes[static_cast<size_t>(min<int64_t>(body + r.range(0, p.end - body - 1), static_cast<int64_t>(bytes.size()) - 1))] = static_cast<uint8_t>(r.next());
              }
            }
        }
        if (static_cast<int64_t>(bytes.size()) <= lay.records.back().end) {
          break;
        }
      }
      for (auto& p : lay.records) { // sizes up to 4 GB are legal, but no fun
        for (int64_t at : {p.begin + 3, p.begin + 31}) {
          if (at < static_cast<int64_t>(bytes.size())) {
            bytes[static_cast<size_t>(at)] = 0;
          }
        }
      }
      vh::spew(paths[0], bytes.data(), bytes.size());
    }
  }
  auto before = fileHashes(srcDir);
  vector<Rec> good;
  size_t bad = 0, streamCount = 0;
  list<FilteredFileReader> readers;
  map<RecordableTypeId, map<StreamId, StreamId>> ids;
  map<RecordableTypeId, uint16_t> instances;
  for (auto& path : paths) {
    readers.emplace_back();
    readers.back().setSource(path);
    int status = readers.back().openFile({});
    if (status != 0) {
      if (!damage) {
        c.failNow("open-failed", "openFile -> %d", status);
      }
      c.count("refused_sources");
      return;
    }
    auto& reader = readers.back().reader;
    streamCount += reader.getStreams().size();
    vector<Rec> g;
    size_t b = 0;
    readability(reader, g, b);
    map<StreamId, StreamId> map;
    for (auto& id : reader.getStreams()) {
      map[id] = StreamId(id.getTypeId(), ++instances[id.getTypeId()]);
    }
    for (auto& rec : g) {
      rec.id = map[rec.id];
      good.push_back(move(rec));
    }
    bad += b;
  }
  CopyOptions options(false);
  options.setCompressionPreset(kPresets[r.below(8)].second);
  options.compressionPoolSize = static_cast<unsigned>(r.below(3));
  options.maxChunkSizeMB = r.chance(0.3) ? 1 : 0;
  options.preallocateIndex = r.chance(0.6);
  options.mergeStreams = false;
  auto go = [&](const string& target) {
    TemporaryRecordableInstanceIdsResetter reset;
    if (nFiles == 1) {
      return filterCopy(readers.front(), target, options);
    }
    vector<FilteredFileReader*> others{&*++readers.begin()};
    return filterMerge(readers.front(), others, target, options);
  };
  string sig;
  vio::Fault fault;
  string what = vh::sf("%s%s", nFiles == 1 ? "copy" : "merge", damage ? " of a damaged source" : "");
  for (size_t turn = 0, turns = damage ? 1 : 4; turn < turns; turn++) {
    vh::wipeDir(outDir);
    string target = outDir + "/out.vrs";
    fault = {};
    if (!damage && turn > 0) {
      fault.kind = r.pick<int>({vio::kOpen, vio::kWrite, vio::kWrite, vio::kWrite, vio::kSeek, vio::kFlush, vio::kClose, vio::kTrunc, vio::kRead, vio::kRead});
      bool source = fault.kind == vio::kRead || (fault.kind == vio::kSeek && r.chance(0.5));
      fault.pathContains = source ? "/src/" : "/out/";
      fault.nth = static_cast<int64_t>(r.skewed(source ? 60 : 40));
      fault.sticky = r.chance(0.5);
      fault.shortWrite = fault.kind == vio::kWrite && r.chance(0.4);
      fault.err = r.pick({ENOSPC, EIO, EDQUOT});
      what = vh::sf("%s, %s of %s #%d fails%s", nFiles == 1 ? "copy" : "merge", vio::kindName(fault.kind), source ? "the source" : "the target", static_cast<int>(fault.nth), fault.sticky ? " and all later ones" : "");
    }
    vio::begin(c.tmp, false, fault);
    int status = 0;
    if (fault.pathContains == "/src/") { // from opening on
      for (auto& f : readers) {
        f.reader.closeFile();
        int e = f.openFile({});
        status = status == 0 ? e : status;
      }
    }
    // a reader treats what it can't read while opening as damage: the records it doesn't find then are not judged here
    size_t found = 0;
    for (auto& f : readers) {
      found += f.reader.getIndex().size() + f.reader.getStreams().size();
    }
    if (status == 0) {
      status = go(target);
    }
    int64_t hits = vio::faultHits();
    vio::end();
    c.check(fileHashes(srcDir) == before, "source-modified", "%s: a source has changed", what.c_str());
    FileContent got = readFile(target);
    sig += vh::sf("%d/%zu/%zu,", status, good.size(), got.recs.size());
    if (fault.pathContains == "/src/") {
      for (auto& f : readers) {
        f.reader.closeFile();
        if (f.openFile({}) != 0) {
          c.failNow("open-failed", "can't open the source again");
        }
      }
    }
    if (!damage) {
      c.count(hits > 0 ? "runs_with_failures" : "runs_without_failure");
      if (hits > 0) {
        c.count(vh::sf("failing:%s%s", fault.pathContains == "/src/" ? "source-" : "", vio::kindName(fault.kind)));
      } else {
        c.check(status == 0, "failure-out-of-nowhere", "%s -> %d", what.c_str(), status);
      }
      if (status != 0) {
        c.count("failures_reported");
        continue;
      }
      if (found < good.size() + streamCount) {
        c.count("damaged_by_opening_failures");
        continue;
      }
      string d = got.status != 0 ? vh::sf("can't be opened: %d", got.status) : !got.anomalies.empty() ? got.anomalies[0] : diffMultiset(good, got.recs);
      c.check(d.empty(), "success-but-data-lost", "%s, reported as a success: %s", what.c_str(), d.c_str());
      continue;
    }
    c.count(bad > 0 ? "damaged_with_unreadable_records" : "damaged_all_readable");
    if (bad > 0) {
      c.check(status != 0, "damage-unreported", "%zu of %zu records can't be read, and the %s is a success", bad, bad + good.size(), what.c_str());
    } else {
      c.check(status == 0, "failed", "%s -> %d, all the records of the source can be read", what.c_str(), status);
    }
    if (c.check(got.status == 0, "unreadable", "%s: the copy can't be opened: %d", what.c_str(), got.status)) {
      c.check(got.anomalies.empty(), "unreadable", "%s: %s", what.c_str(), got.anomalies.empty() ? "" : got.anomalies[0].c_str());
      string d = diffMultiset(good, got.recs);
      c.check(d.empty(), "readable-record-lost", "%s: %s", what.c_str(), d.c_str());
    }
  }
  c.signature(sig);
}

class Identity : public RecordFilterCopier {
 public:
  using RecordFilterCopier::RecordFilterCopier;
  bool shouldCopyVerbatim(const CurrentRecord& record) override {
    // (configuration records must be decoded, for those that need them to be)
    return record.recordType == Record::Type::DATA && verbatim && verbatim();
  }
  function<bool()> verbatim;
};

void richCase(Case& c) {
  auto& r = c.rng;
  RichOptions o;
  o.maxRecords = 25;
  o.increasing = r.chance(0.7);
  RichPlan plan = makeRich(r, o);
  string path = c.file("rich.vrs"), target = c.file("out.vrs");
  int status = writeRich(plan, path);
  if (status != 0) {
    c.failNow("setup", "writeRich -> %d", status);
  }
  FilteredFileReader f(path);
  if (f.openFile() != 0) {
    c.failNow("setup", "openFile");
  }
  // streams in the file, of ours
  bool zero = r.chance(0.5);
  vector<Rec> expected;
  size_t zeroed = 0, blocks = 0;
  map<RecordableTypeId, uint16_t> nth;
  map<StreamId, RichStream*> byId;
  for (auto& s : plan.streams) {
    byId[s->getStreamId()] = s.get();
  }
  for (auto& it : byId) {
    StreamId id(it.first.getTypeId(), ++nth[it.first.getTypeId()]);
    for (auto& rr : it.second->rich) {
      Rec e = rr.rec;
      e.id = id;
      size_t size = 0, at = 0;
      for (auto& b : rr.blocks) {
        size += b.bytes.size();
      }
      // (blocks are known by their bytes, one after the other)
      blocks += rr.blocks.size();
      if (zero && size == e.data.size()) {
        for (auto& b : rr.blocks) {
          bool media = (b.type == ContentType::IMAGE || b.type == ContentType::AUDIO) && !b.unsupported;
          if (media && e.type == Record::Type::DATA) {
            fill(e.data.begin() + static_cast<ssize_t>(at), e.data.begin() + static_cast<ssize_t>(at + b.bytes.size()), 0);
            zeroed++;
          }
          at += b.bytes.size();
        }
      }
      expected.push_back(move(e));
    }
  }
  sortPlayback(expected);
  CopyOptions options(false);
  options.setCompressionPreset(kPresets[r.below(8)].second);
  options.compressionPoolSize = static_cast<unsigned>(r.below(3));
  auto before = vh::slurp(path);
  double verbatim = r.pick({0.0, 0.0, 0.5});
  {
    TemporaryRecordableInstanceIdsResetter reset;
    status = filterCopy(f, target, options, [&](RecordFileReader& reader, RecordFileWriter& writer, StreamId id, const CopyOptions& opt) -> unique_ptr<StreamPlayer> {
      if (zero) {
        return makeZeroFilterCopier(reader, writer, id, opt);
      }
      auto p = make_unique<Identity>(reader, writer, id, opt);
      p->verbatim = [&] { return r.chance(verbatim); };
      return p;
    });
  }
  c.check(vh::slurp(path) == before, "source-modified", "the source has changed");
  if (!c.check(status == 0, "failed", "filterCopy -> %d", status)) {
    return;
  }
  FileContent got = readFile(target);
  c.check(got.status == 0 && got.anomalies.empty(), "unreadable", "the copy can't be read: %d %s", got.status, got.anomalies.empty() ? "" : got.anomalies[0].c_str());
  string d = diffOrdered(expected, got.recs);
  c.check(d.empty(), zero ? "zeroed-records" : "rewritten-records", "%s: %s", zero ? "zero filter" : "identity filter", d.c_str());
  c.count(zero ? "zero_filters" : "identity_filters");
  c.count("blocks_copied", static_cast<int64_t>(blocks));
  c.count("blocks_zeroed", static_cast<int64_t>(zeroed));
  c.signature(vh::sf("%zu/%zu", blocks, zeroed));
}
} // namespace

static void runCase(Case& c) {
  if (c.mode == "faults") {
    faultCase(c);
  } else if (c.mode == "rich") {
    richCase(c);
  } else {
    copyCase(c);
  }
}
VH_MAIN()
