// C16: the records given by the filtering and decimation options are those the documentation of the options tells.
// USES: core utils
// WITH: vrsgen plan
#include "plan.h"
#include "select.h"

#include <tools/vrs/VrsCommand.h>

#include <vrs/utils/FilteredFileReader.h>

using namespace vrs;
using namespace vrs::utils;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
struct Source {
  string path;
  Recording rec;
  bool grid{};
};

Source makeSource(Case& c) {
  auto& r = c.rng;
  PlanOptions o;
  o.maxStreams = 5;
  o.maxRecords = 60;
  o.maxSize = 60;
  o.engines = false;
  o.direct = false;
  o.extremes = r.chance(0.3);
  o.increasing = r.chance(0.5);
  Plan p = randomPlan(r, o);
  Source s;
  s.grid = r.chance(0.6);
  if (s.grid) { // times with exact sums and differences
    double base = r.pick({0.0, -2.0, 1000.0, 0.5});
    uint64_t span = r.pick({16, 64, 400});
    for (auto& rec : p.records) {
      rec.ts = base + static_cast<double>(r.below(span)) / 16;
      rec.flushAfter = false;
    }
    if (p.how == kAsync) {
      p.how = kSync;
    }
    for (auto& st : p.streams) {
      st.autoTs = base;
    }
  }
  s.path = c.file("source.vrs");
  s.rec = execute(p, s.path);
  if (s.rec.status != 0) {
    c.failNow("setup", "recording -> %d at %s", s.rec.status, s.rec.failedAt.c_str());
  }
  return s;
}

// what's wrong with the arguments is found by another property
bool parse(Case& c, cli::VrsCommand& cmd, const vector<string>& args) {
  vector<string> copy{"vrs"};
  copy.insert(copy.end(), args.begin(), args.end());
  vector<char*> argv;
  for (auto& a : copy) {
    argv.push_back(a.data());
  }
  int argc = static_cast<int>(argv.size());
  for (int n = 1; n < argc; n++) {
    int status = 0;
    string arg = argv[n];
    if (!cmd.parseArgument("vrs", n, argc, argv.data(), status) || status != 0) {
      c.failNow("option-refused", "option '%s' is refused (in: %s)", arg.c_str(), vh::printable([&] { string s; for (auto& a : args) { s += a + ' '; } return s; }()).c_str());
    }
  }
  return true;
}

void apply(Case& c, FilteredFileReader& f, RecordFilterParams& params, const Selection& s) {
  auto& r = c.rng;
  // series of stream choices, in one string, or one by one
  if (!s.streams.empty() && r.chance(0.4)) {
    string text;
    for (auto& st : s.streams) {
      text += (text.empty() ? "" : r.chance(0.3) ? ", " : ",") + string(st.add ? (r.chance(0.7) ? "+" : "") : r.chance(0.5) ? "-" : "~") + st.text;
    }
    c.check(params.includeExcludeStream(text), "option-refused", "includeExcludeStream(%s)", text.c_str());
  } else {
    for (auto& st : s.streams) {
      c.check(st.add ? params.includeStream(st.text) : params.excludeStream(st.text), "option-refused", "%s stream %s", st.add ? "include" : "exclude", st.text.c_str());
    }
  }
  for (auto& t : s.types) {
    c.check(t.add ? params.includeType(t.text) : params.excludeType(t.text), "option-refused", "type %s", t.text.c_str());
  }
  auto value = [](double v, Selection::TimeKind k) { return k == Selection::kFromLast ? -v : v; };
  bool text = s.canBeArgs() && r.chance(0.5);
  if (s.hasMin) {
    if (text) {
      c.check(f.afterConstraint(Selection::number(s.min, s.minKind)), "option-refused", "after %s", Selection::number(s.min, s.minKind).c_str());
    } else {
      f.setMinTime(value(s.min, s.minKind), s.minKind != Selection::kAbsolute);
    }
  }
  if (s.around) {
    f.filter.maxTime = s.max;
    f.filter.aroundTime = true;
  } else if (s.hasMax) {
    if (text) {
      c.check(f.beforeConstraint(Selection::number(s.max, s.maxKind)), "option-refused", "before %s", Selection::number(s.max, s.maxKind).c_str());
    } else {
      f.setMaxTime(value(s.max, s.maxKind), s.maxKind != Selection::kAbsolute);
    }
  }
  f.firstRecordsOnly = s.first;
}

void decimation(FilteredFileReader& f, const Selection& s) {
  if (s.intervals.empty() && s.bucket == 0) {
    return;
  }
  DefaultDecimator::Params p;
  for (auto& i : s.intervals) {
    p.decimationIntervals.emplace_back(i.first.text, i.second);
  }
  p.bucketInterval = s.bucket;
  p.bucketMaxTimestampDelta = s.delta;
  p.decimate(f);
}
} // namespace

static void runCase(Case& c) {
  auto& r = c.rng;
  Source src = makeSource(c);
  RecordFileReader plainReader;
  if (plainReader.openFile(src.path) != 0) {
    c.failNow("setup", "can't open the recording");
  }
  FileContent content;
  readContent(plainReader, content);
  Infos infos = infosOf(plainReader);
  map<int64_t, size_t> byOffset;
  for (size_t i = 0; i < infos.size(); i++) {
    byOffset[infos[i].fileOffset] = i;
  }
  SelectionOptions so;
  so.grid = src.grid;
  string sig = vh::sf("%zu/%zu", infos.size(), plainReader.getStreams().size());
  for (size_t turn = 0, turns = 4 + r.below(5); turn < turns; turn++) {
    Selection s = randomSelection(r, plainReader, so);
    auto streams = selectStreams(s.streams, plainReader.getStreams());
    bool any = false;
    double first = 0, last = 0;
    dataRange(infos, streams, any, first, last);
    Selected want = select(infos, plainReader.getStreams(), s, any, first, last);
    string text = s.str();
    c.count("selections");

    cli::VrsCommand cmd;
    cmd.cmd = cli::Command::ListRecords;
    FilteredFileReader& f = cmd.filteredReader;
    bool asArgs = s.canBeArgs() && r.chance(0.5);
    if (asArgs) {
      parse(c, cmd, s.args(&r));
      c.count("as_arguments");
      f.setSource(src.path);
      if (!cmd.openVrsFile()) {
        c.failNow("open-failed", "openVrsFile");
      }
      cmd.applyFilters(f);
    } else {
      f.setSource(src.path);
      apply(c, f, cmd.filters, s);
      int status = f.openFile(cmd.filters);
      if (status != 0) {
        c.failNow("open-failed", "openFile -> %d", status);
      }
      decimation(f, s);
    }
    c.check(f.filter.streams == want.streams, "streams", "%s: selects %zu streams instead of %zu, or others", text.c_str(), f.filter.streams.size(), want.streams.size());
    c.check(f.filter.types == want.types, "types", "%s: selects %zu record types instead of %zu, or others", text.c_str(), f.filter.types.size(), want.types.size());
    if (!s.streams.empty()) {
      c.count("stream_choices");
      set<StreamId> ids;
      cmd.filters.getIncludedStreams(f.reader, ids);
      auto p = cmd.filters.getIncludedStreams(f.reader);
      c.check(ids == want.streams && p && *p == want.streams, "streams", "%s: getIncludedStreams", text.c_str());
    }
    if (!s.types.empty()) {
      c.count("type_choices");
    }
    double a = 0, b = 0;
    f.getTimeRange(a, b);
    if (any) {
      c.check(a == first && b == last, "time-range", "%s: data from %.17g to %.17g, instead of %.17g to %.17g", text.c_str(), a, b, first, last);
    }
    if (s.around) {
      c.count("around");
    }
    if (!want.judged) {
      c.count("relative_to_nothing");
      f.iterateSafe();
      continue;
    }
    // a predicate
    set<size_t> skip;
    if (s.bucket == 0 && s.intervals.empty() && !s.first && r.chance(0.2)) {
      for (size_t i = 0; i < infos.size(); i++) {
        if (r.chance(0.3)) {
          skip.insert(i);
        }
      }
      f.skipRecordFilter = [&](const IndexRecord::RecordInfo& i) { return skip.count(byOffset.at(i.fileOffset)) > 0; };
      vector<size_t> kept;
      for (size_t i : want.main) {
        if (!skip.count(i)) {
          kept.push_back(i);
        }
      }
      want.main = kept;
      c.count("predicates");
    }
    bool ordered = s.bucket == 0;
    if (!want.validRange) {
      c.count("empty_ranges");
    }
    if (s.hasMin) {
      c.count("minimum");
      c.count(s.minKind == Selection::kAbsolute ? "minimum_absolute" : s.minKind == Selection::kFromFirst ? "minimum_from_first" : "minimum_from_last");
    }
    if (s.hasMax) {
      c.count("maximum");
      c.count(s.maxKind == Selection::kAbsolute ? "maximum_absolute" : s.maxKind == Selection::kFromFirst ? "maximum_from_first" : "maximum_from_last");
    }
    if (s.first) {
      c.count("first_records");
    }
    if (!s.intervals.empty()) {
      c.count("interval_decimations");
    }
    if (s.bucket > 0) {
      c.count("bucket_decimations");
      c.count("bucket_records", want.oneOf.size());
    }
    c.count("preroll_records", want.preroll.size());
    c.count("records_selected", want.main.size());
    c.count("records_out", infos.size() - want.main.size());
    // limits can be resolved by one of these
    switch (r.below(4)) {
      case 0: { // play
        vector<Rec> got;
        map<StreamId, unique_ptr<Collector>> players;
        Collector collector;
        for (auto& id : f.reader.getStreams()) {
          f.reader.setStreamPlayer(id, &collector);
        }
        uint32_t n = f.iterateSafe();
        // the records are found in the content of the file, in order of time, equal records can't be told apart
        vector<size_t> sel = want.preroll;
        if (want.prerollOptional && collector.recs.empty()) {
          sel.clear();
        }
        sel.insert(sel.end(), want.main.begin(), want.main.end());
        if (want.oneOf.empty()) {
          vector<Rec> expected;
          for (size_t i : sel) {
            expected.push_back(content.recs[i]);
          }
          string d = diffOrdered(expected, collector.recs);
          c.check(d.empty(), "played", "%s: %s", text.c_str(), d.c_str());
        } else {
          c.check(collector.recs.size() == sel.size() + want.oneOf.size(), "played", "%s: %zu records played instead of %zu", text.c_str(), collector.recs.size(), sel.size() + want.oneOf.size());
        }
        c.check(n == want.main.size() + want.oneOf.size(), "count", "%s: iterateSafe() -> %u, instead of %zu", text.c_str(), n, want.main.size() + want.oneOf.size());
        c.count("played");
        break;
      }
      case 1: { // preliminary index
        double u = 0, v = 0;
        f.getConstrainedTimeRange(u, v);
        auto index = f.buildIndex();
        vector<size_t> got;
        // as many records of the same stream, type and time
        multiset<tuple<double, StreamId, Record::Type>> have, need;
        for (auto& d : *index) {
          have.insert({d.timestamp, d.getStreamId(), d.getRecordType()});
        }
        if (want.oneOf.empty()) {
          for (size_t i : want.main) {
            need.insert({infos[i].timestamp, infos[i].streamId, infos[i].recordType});
          }
          auto withPreroll = need;
          for (size_t i : want.preroll) {
            withPreroll.insert({infos[i].timestamp, infos[i].streamId, infos[i].recordType});
          }
          c.check(have == withPreroll || (want.prerollOptional && have == need), "index", "%s: buildIndex() has %zu records, instead of %zu, or others", text.c_str(), have.size(), withPreroll.size());
        } else {
          c.check(have.size() == want.main.size() + want.preroll.size() + want.oneOf.size(), "index", "%s: buildIndex() has %zu records, instead of %zu", text.c_str(), have.size(), want.main.size() + want.preroll.size() + want.oneOf.size());
        }
        c.count("indexes");
        break;
      }
      default: {
        double u = 0, v = 0;
        f.getConstrainedTimeRange(u, v);
        if (any && want.validRange) {
          double wa = s.hasMin ? max(first, want.min) : first, wb = s.hasMax ? min(last, want.max) : last;
          c.check(u == wa && v == wb, "constrained-range", "%s: from %.17g to %.17g instead of %.17g to %.17g", text.c_str(), u, v, wa, wb);
        }
        c.check(infos.empty() || f.timeRangeValid() == want.validRange, "valid-range", "%s: timeRangeValid() -> %d", text.c_str(), f.timeRangeValid());
        for (size_t again = 0, times = 1 + r.below(2); again < times; again++) {
          vector<size_t> got;
          bool stop = false, stopped = false;
          size_t stopAfter = r.chance(0.25) ? r.below(20) : SIZE_MAX;
          RecordReaderFunc take = [&](RecordFileReader& reader, const IndexRecord::RecordInfo& i) {
            c.check(&reader == &f.reader, "reader", "called with another reader");
            c.check(!stopped, "after-stop", "%s: called again after having asked to stop", text.c_str());
            auto it = byOffset.find(i.fileOffset);
            if (it == byOffset.end() || !(infos[it->second] == i)) {
              c.failNow("record", "%s: a record that the index doesn't have", text.c_str());
            }
            got.push_back(it->second);
            if (stop && got.size() > stopAfter) {
              stopped = true;
              return false;
            }
            return true;
          };
          f.preRollConfigAndState(take);
          size_t pre = got.size();
          if (stopAfter != SIZE_MAX) {
            stopAfter += pre;
            stop = true;
          }
          f.iterateAdvanced(take);
          if (stopped) {
            c.count("stops");
            c.check(got.size() == stopAfter + 1, "after-stop", "%s: %zu records instead of %zu", text.c_str(), got.size() - pre, stopAfter + 1 - pre);
            if (want.oneOf.empty()) {
              vector<size_t> head(want.main.begin(), want.main.begin() + min(want.main.size(), got.size() - pre));
              c.check(head == vector<size_t>(got.begin() + pre, got.end()), "records", "%s: other records when stopped", text.c_str());
            }
            continue;
          }
          string e = checkSelected(want, got, pre, ordered);
          if (!e.empty()) {
            string around;
            c.fail("records", "%s: %s (first data %.17g, last %.17g, range %.17g to %.17g)", text.c_str(), e.c_str(), first, last, want.min, want.max);
          }
          c.count("iterations");
        }
      }
    }
    sig += vh::sf(",%zu+%zu+%zu", want.preroll.size(), want.main.size(), want.oneOf.size());
  }
  c.signature(sig);
}
VH_MAIN()
